From 935c8a64008b573b3e502c957b154adc54b6e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:42 +0000
Subject: [PATCH 01/22] fix: free: Step over whole nested fixed-length sequence
 entries.

The entries of a non-pointer fixed-length sequence inside a sequence span
`data_size * max` bytes, but free stepped by `data_size`, so allocations
were freed more than once, and others leaked.
---
 src/free.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/free.c b/src/free.c
index 266cd7b..431a39e 100644
--- a/src/free.c
+++ b/src/free.c
@@ -67,6 +67,8 @@ static void cyaml__free_sequence(
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
+	} else if (schema->type == CYAML_SEQUENCE_FIXED) {
+		data_size *= schema->sequence.max;
 	}
 
 	for (unsigned i = 0; i < count; i++) {
-- 
2.43.0


From 9bb7b3918e8cece3b1db7feb29865b86f7f60571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 02/22] fix: free: Don't leak when a sequence count can't be
 read.

When a field's count size is invalid, the load fails, but the clean up
returned early, leaking everything in the mapping after that field.  The
load code also freed the sequence allocation itself, leaving a dangling
pointer to it in the data structure.
---
 src/free.c | 4 +++-
 src/load.c | 6 ------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/free.c b/src/free.c
index 431a39e..a9eb75a 100644
--- a/src/free.c
+++ b/src/free.c
@@ -102,7 +102,9 @@ static void cyaml__free_mapping(
 			count = cyaml_data_read(schema->count_size,
 					data + schema->count_offset, &err);
 			if (err != CYAML_OK) {
-				return;
+				/* Schema has a bad count size, so no entry
+				 * can have been completed. */
+				count = 0;
 			}
 		}
 		cyaml__free_value(cfg, &schema->value,
diff --git a/src/load.c b/src/load.c
index b0c8483..2956f60 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2836,12 +2836,6 @@ static cyaml_err_t cyaml__seq_entry(
 		if (err != CYAML_OK) {
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Failed writing sequence count\n");
-			if (schema->flags & CYAML_FLAG_POINTER) {
-				cyaml__log(ctx->config, CYAML_LOG_DEBUG,
-						"Load: Freeing %p\n",
-						state->sequence.data);
-				cyaml__free(ctx->config, state->sequence.data);
-			}
 			return err;
 		}
 	}
-- 
2.43.0


From 47b82a2292e61fbe663ca1b974e272eb255a6798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 03/22] fix: load: Reject sequences too long for their count
 member.

The entry count was silently truncated to the size of the count member, so
entries were lost, and could not be freed.
---
 src/load.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/load.c b/src/load.c
index 2956f60..3cec8ca 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2818,6 +2818,18 @@ static cyaml_err_t cyaml__seq_entry(
 		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
 	}
 
+	if (schema->type != CYAML_SEQUENCE_FIXED &&
+			state->sequence.count_size < sizeof(uint32_t) &&
+			state->sequence.count_size > 0 &&
+			(state->sequence.count + 1) >>
+					(state->sequence.count_size * 8) != 0) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Excessive entries in sequence for "
+				"count size (%u bytes).\n",
+				state->sequence.count_size);
+		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+	}
+
 	err = cyaml__data_handle_pointer(ctx, schema, event, &value_data);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From 47c8f7e9d5cf59704d68b05bab3f89b154eb3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 04/22] fix: load: Reject negative values for unsigned
 integers.

`strtoull` accepts a minus sign and negates the value, so e.g. `-1` was
loaded as UINT64_MAX, and `-18446744073709551615` as 1.
---
 src/load.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 3cec8ca..ef028af 100644
--- a/src/load.c
+++ b/src/load.c
@@ -19,6 +19,7 @@
 #include <limits.h>
 #include <errno.h>
 #include <float.h>
+#include <string.h>
 #include <math.h>
 
 #include <yaml.h>
@@ -1892,7 +1893,9 @@ static inline cyaml_err_t cyaml__read_uint64_t(
 	errno = 0;
 	temp = strtoull(value, &end, 0);
 
-	if (end == value || end == NULL || *end != '\0' || errno == ERANGE) {
+	/* Note: `strtoull` negates the values of strings with minus signs. */
+	if (end == value || end == NULL || *end != '\0' || errno == ERANGE ||
+	    (temp != 0 && strchr(value, '-') != NULL)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Invalid uint64_t value: '%s'\n",
 				value);
-- 
2.43.0


From ff4eff226a96cabdda50e35d6fa92bf7c49d0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 05/22] fix: load: Treat numerical flags as unsigned.

The numerical values of flags are documented to be unsigned, and they are
saved as unsigned, but values with the top bit of a 64-bit integer set were
rejected when loading.
---
 src/load.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index ef028af..9dc740c 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2144,15 +2144,16 @@ static cyaml_err_t cyaml__set_flag(
 	}
 
 	if (!(schema->flags & CYAML_FLAG_STRICT)) {
-		long long temp;
+		unsigned long long temp;
 		char *end = NULL;
 		uint64_t max = (~(uint64_t)0) >> ((8 - schema->data_size) * 8);
 
 		errno = 0;
-		temp = strtoll(value, &end, 0);
+		temp = strtoull(value, &end, 0);
 
 		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || temp < 0 || (uint64_t)temp > max)) {
+		      errno == ERANGE || temp > max ||
+		      (temp != 0 && strchr(value, '-') != NULL))) {
 			*flags_out |= ((uint64_t)temp);
 			return CYAML_OK;
 		}
-- 
2.43.0


From ceedc327b1d1d78933c32bb71f39a545643f6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 06/22] fix: load: Give validation callbacks the data of
 pointer sequences.

For sequences with the pointer flag, the callback was given the address of
the pointer to the sequence, rather than the sequence to be validated.
---
 src/load.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 9dc740c..0cdb9a8 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2892,9 +2892,12 @@ static cyaml_err_t cyaml__seq_end(
 	}
 
 	if (schema->sequence.validation_cb != NULL) {
+		const uint8_t *seq = (schema->flags & CYAML_FLAG_POINTER) ?
+				state->sequence.data : state->data;
+
 		if (!schema->sequence.validation_cb(
 				ctx->config->validation_ctx,
-				schema, state->data, state->sequence.count)) {
+				schema, seq, state->sequence.count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From d46845a79a1e7814255f3c2238b64b845d694be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 07/22] fix: load: Reject underflow for strict single precision
 floats.

The range was only checked for the range of double precision values.
---
 src/load.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/load.c b/src/load.c
index 0cdb9a8..419807d 100644
--- a/src/load.c
+++ b/src/load.c
@@ -427,6 +427,14 @@ static cyaml_err_t cyaml__store_float(
 
 		fvalue = (float)value;
 
+		if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
+			/* Underflow: Too small for float, and inexact. */
+			if (value < FLT_MIN && value > -FLT_MIN &&
+			    value != (double)fvalue) {
+				return CYAML_ERR_INVALID_VALUE;
+			}
+		}
+
 		if (validate_cb != NULL) {
 			if (!validate_cb(ctx->config->validation_ctx,
 					schema, fvalue)) {
-- 
2.43.0


From a590f77c07d188f2d6a370b908cee85b1724fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 08/22] fix: save: Save negative enum values using their
 strings.

Values smaller than 64-bit were not sign extended before they were compared
with the values in the schema, so negative enum values were saved as numbers,
or rejected for strict enums.
---
 src/save.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/save.c b/src/save.c
index 6fbcfe3..ebd8c96 100644
--- a/src/save.c
+++ b/src/save.c
@@ -687,15 +687,17 @@ static cyaml_err_t cyaml__write_enum(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
-	int64_t number;
+	uint64_t raw;
 	cyaml_err_t err;
 
-	number = (int64_t)cyaml_data_read(schema->data_size, data, &err);
+	raw = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
 		const cyaml_strval_t *strings = schema->enumeration.strings;
+		int64_t number = cyaml_sign_pad(raw, schema->data_size);
 		const char *string = NULL;
 		for (uint32_t i = 0; i < schema->enumeration.count; i++) {
-			if (number == strings[i].val) {
+			if (number == strings[i].val ||
+			    (int64_t)raw == strings[i].val) {
 				string = strings[i].str;
 				break;
 			}
-- 
2.43.0


From 2a2ddd1e88efb868f0fedf9e850985c434b7c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 09/22] fix: save: Don't share number formatting buffers
 between threads.

The text of numbers was written to static buffers before it was emitted, so
concurrent saves in different threads could write each other's numbers.
---
 src/save.c | 51 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/save.c b/src/save.c
index ebd8c96..ce49dcf 100644
--- a/src/save.c
+++ b/src/save.c
@@ -504,17 +504,19 @@ static cyaml_err_t cyaml__emit_scalar(
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
 
+/** Size of buffers for string conversions of numbers. */
+#define CYAML_NUM_BUF_LEN 64
+
 /**
  * Convert signed integer to string.
  *
- * \param[in]  value  The integer to convert.
+ * \param[in]  value   The integer to convert.
+ * \param[in]  string  Buffer of \ref CYAML_NUM_BUF_LEN bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_int(
-		int64_t value)
+		int64_t value, char *string)
 {
-	static char string[32];
-
 	sprintf(string, "%"PRIi64, value);
 
 	return string;
@@ -523,15 +525,14 @@ static const char * cyaml__get_int(
 /**
  * Convert unsigned integer to string.
  *
- * \param[in]  value  The integer to convert.
- * \param[in]  hex    Whether to render the number as hexadecimal.
+ * \param[in]  value   The integer to convert.
+ * \param[in]  hex     Whether to render the number as hexadecimal.
+ * \param[in]  string  Buffer of \ref CYAML_NUM_BUF_LEN bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_uint(
-		uint64_t value, bool hex)
+		uint64_t value, bool hex, char *string)
 {
-	static char string[32];
-
 	if (hex) {
 		sprintf(string, "0x%"PRIx64, value);
 	} else {
@@ -544,14 +545,13 @@ static const char * cyaml__get_uint(
 /**
  * Get string representation for single precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[in]  string  Buffer of \ref CYAML_NUM_BUF_LEN bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_float(
-		double value)
+		double value, char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%g", value);
 
 	return string;
@@ -560,14 +560,13 @@ static const char * cyaml__get_float(
 /**
  * Get string representation for double precision floating point values.
  *
- * \param[in]  value  The value to convert.
+ * \param[in]  value   The value to convert.
+ * \param[in]  string  Buffer of \ref CYAML_NUM_BUF_LEN bytes to use.
  * \return String conversion of the value.
  */
 static const char * cyaml__get_double(
-		double value)
+		double value, char *string)
 {
-	static char string[64];
-
 	sprintf(string, "%.16e", value);
 
 	return string;
@@ -609,6 +608,7 @@ static cyaml_err_t cyaml__write_int(
 		const uint8_t *data)
 {
 	cyaml_err_t err;
+	char buffer[CYAML_NUM_BUF_LEN];
 	int64_t number;
 	uint64_t raw;
 
@@ -620,7 +620,7 @@ static cyaml_err_t cyaml__write_int(
 	number = cyaml_sign_pad(raw, schema->data_size);
 
 	return cyaml__emit_scalar(ctx, schema,
-			cyaml__get_int(number),
+			cyaml__get_int(number, buffer),
 			YAML_INT_TAG);
 }
 
@@ -642,7 +642,8 @@ static cyaml_err_t cyaml__write_uint(
 
 	number = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
-		const char *string = cyaml__get_uint(number, false);
+		char buffer[CYAML_NUM_BUF_LEN];
+		const char *string = cyaml__get_uint(number, false, buffer);
 		err = cyaml__emit_scalar(ctx, schema, string, YAML_INT_TAG);
 	}
 
@@ -734,17 +735,18 @@ static cyaml_err_t cyaml__write_float(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
+	char buffer[CYAML_NUM_BUF_LEN];
 	const char *string = NULL;
 
 	if (schema->data_size == sizeof(float)) {
 		float number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_float(number);
+		string = cyaml__get_float(number, buffer);
 
 	} else if (schema->data_size == sizeof(double)) {
 		double number;
 		memcpy(&number, data, schema->data_size);
-		string = cyaml__get_double(number);
+		string = cyaml__get_double(number, buffer);
 	} else {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
@@ -842,7 +844,9 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		if (schema->flags & CYAML_FLAG_STRICT) {
 			return CYAML_ERR_INVALID_VALUE;
 		} else {
-			const char *string = cyaml__get_uint(number, false);
+			char buffer[CYAML_NUM_BUF_LEN];
+			const char *string = cyaml__get_uint(number, false,
+					buffer);
 			err = cyaml__emit_scalar(ctx, schema, string,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
@@ -908,6 +912,7 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 	}
 
 	for (uint32_t i = 0; i < schema->bitfield.count; i++) {
+		char buffer[CYAML_NUM_BUF_LEN];
 		const char *value_str;
 		uint64_t value;
 		uint64_t mask;
@@ -934,7 +939,7 @@ static cyaml_err_t cyaml__emit_bitfield_mapping(
 		}
 
 		/* Emit bitfield value's value */
-		value_str = cyaml__get_uint(value, true);
+		value_str = cyaml__get_uint(value, true, buffer);
 		err = cyaml__emit_scalar(ctx, schema, value_str, YAML_INT_TAG);
 		if (err != CYAML_OK) {
 			return err;
-- 
2.43.0


From 2329811aa51b3a79f7f85f08b6019f33fbfa0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 10/22] fix: save: Don't lose precision of single precision
 floats.

Six significant digits aren't enough to represent every single precision
value, so loading a saved value could give a different value.
---
 src/save.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index ce49dcf..518454b 100644
--- a/src/save.c
+++ b/src/save.c
@@ -16,6 +16,8 @@
 #include <stdbool.h>
 #include <assert.h>
 #include <limits.h>
+#include <stdlib.h>
+#include <float.h>
 
 #include <yaml.h>
 
@@ -552,7 +554,13 @@ static const char * cyaml__get_uint(
 static const char * cyaml__get_float(
 		double value, char *string)
 {
-	sprintf(string, "%g", value);
+	/* Use the fewest digits needed to get the same value back. */
+	for (int precision = 6; precision <= FLT_DECIMAL_DIG; precision++) {
+		sprintf(string, "%.*g", precision, value);
+		if ((float)strtod(string, NULL) == (float)value) {
+			break;
+		}
+	}
 
 	return string;
 }
-- 
2.43.0


From 8c18dbf1e3eff1d6b160f9b7b1bc5727012f7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 11/22] fix: save: Don't save flags with bits that aren't set.

A flag whose value has several bits was saved if any of those bits were set,
so loading the saved flags could set bits which weren't set originally.
---
 src/save.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 518454b..9a75195 100644
--- a/src/save.c
+++ b/src/save.c
@@ -823,6 +823,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		const cyaml_schema_value_t *schema,
 		uint64_t number)
 {
+	const uint64_t all = number;
 	yaml_event_t event;
 	cyaml_err_t err;
 	int ret;
@@ -839,7 +840,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 	for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 		const cyaml_strval_t *strval = &schema->enumeration.strings[i];
 		uint64_t flag = (uint64_t)strval->val;
-		if (number & flag) {
+		if ((number & flag) && (all & flag) == flag) {
 			err = cyaml__emit_scalar(ctx, schema, strval->str,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
-- 
2.43.0


From 7ac6dcbe7de5799007c72b667da1133664a036cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 12/22] fix: save: Report errors from flushing the output file.

Output that fits in the stream's buffer isn't written until the file is
closed, so failures like a full disk were reported as success.
---
 src/save.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 9a75195..15d90db 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1398,7 +1398,11 @@ cyaml_err_t cyaml_save_file(
 
 	/* Cleanup */
 	yaml_emitter_delete(&emitter);
-	fclose(file);
+	if (fclose(file) != 0) {
+		cyaml__log(config, CYAML_LOG_ERROR,
+				"Save: Failed to write to file\n");
+		return CYAML_ERR_LIBYAML_EMITTER;
+	}
 
 	return CYAML_OK;
 }
-- 
2.43.0


From a69c73d1d1fd127e8dd538f0da8cce9944461547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 13/22] fix: save: Allow pointer sequences with no entries.

Loading an empty sequence leaves the pointer NULL, but the result could
not be saved.
---
 src/save.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 15d90db..c1beb63 100644
--- a/src/save.c
+++ b/src/save.c
@@ -984,6 +984,25 @@ static cyaml_err_t cyaml__write_bitfield_value(
 	return err;
 }
 
+/**
+ * Check for a sequence with no entries.
+ *
+ * Such a sequence has no allocation, when its value is a pointer.
+ *
+ * \param[in]  schema     CYAML schema for the value.
+ * \param[in]  seq_count  Entry count for sequence values.  Unused for
+ *                        non-sequence values.
+ * \return true iff value is a sequence with no entries, false otherwise.
+ */
+static inline bool cyaml__is_empty_sequence(
+		const cyaml_schema_value_t *schema,
+		uint64_t seq_count)
+{
+	return ((schema->type == CYAML_SEQUENCE) ||
+	        (schema->type == CYAML_SEQUENCE_FIXED)) &&
+			(seq_count == 0);
+}
+
 /**
  * Emit the YAML events required for a CYAML value.
  *
@@ -1019,7 +1038,7 @@ static cyaml_err_t cyaml__write_value(
 				CYAML_FLAG_POINTER_NULL)) {
 			return cyaml__emit_scalar(ctx, schema, "",
 					YAML_STR_TAG);
-		} else {
+		} else if (!cyaml__is_empty_sequence(schema, seq_count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From d2b471bc4b02181662b3e6a4ff9a3078db631dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 14/22] fix: save: Report the location of errors in the
 backtrace.

The field following the one in error was reported, or the NULL key after
the last field, and the sequence entry count was given as the entry.
---
 src/save.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/save.c b/src/save.c
index c1beb63..c4d0792 100644
--- a/src/save.c
+++ b/src/save.c
@@ -41,6 +41,8 @@ typedef struct cyaml_state {
 		 */
 		struct {
 			const cyaml_schema_field_t *field;
+			/** Field being written, or NULL. */
+			const cyaml_schema_field_t *current;
 		} mapping;
 		/**  Additional state for \ref CYAML_STATE_IN_SEQUENCE state. */
 		struct {
@@ -453,15 +455,19 @@ static void cyaml__backtrace(
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
+			if (state->mapping.current == NULL) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					state->mapping.current->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in sequence entry: %"PRIu32"\n",
-					state->sequence.count);
+					"  in sequence entry: %"PRIu64"\n",
+					state->sequence.entry);
 			break;
 		default:
 			/** \todo \ref CYAML_STATE_IN_DOC handling for multi
@@ -1174,6 +1180,8 @@ static cyaml_err_t cyaml__write_mapping(
 			}
 		}
 
+		ctx->state->mapping.current = field;
+
 		err = cyaml__emit_scalar(ctx, ctx->state->schema,
 				field->key, YAML_STR_TAG);
 		if (err != CYAML_OK) {
-- 
2.43.0


From 9a77fe8bab4d6d7b31433c9b3ed4fe4a27da373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 15/22] fix: copy: Handle NULL values like load and save.

Values that are allowed to be NULL, and empty sequences, could not be
copied, and skipping an absent optional sequence left its entry on the
state stack, so the fields that follow were written to the wrong place.
---
 src/copy.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index 64176aa..54d5a19 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -421,6 +421,22 @@ static cyaml_err_t cyaml__clone_value(
 			cyaml__type_to_str(schema->type),
 			schema->flags & CYAML_FLAG_POINTER ? " (pointer)" : "");
 
+	if (schema->type == CYAML_SEQUENCE_FIXED &&
+			schema->sequence.min != schema->sequence.max) {
+		return CYAML_ERR_SEQUENCE_FIXED_COUNT;
+	}
+
+	if ((schema->flags & CYAML_FLAG_POINTER) &&
+			cyaml_data_read_pointer(data) == NULL) {
+		/* There's nothing to copy, and copies start out zeroed. */
+		if (cyaml__flag_check_all(schema->flags,
+				CYAML_FLAG_POINTER_NULL) ||
+		    (cyaml__is_sequence(schema) && seq_count == 0)) {
+			return CYAML_OK;
+		}
+		return CYAML_ERR_BAD_PARAM_NULL_DATA;
+	}
+
 	if (!cyaml__is_sequence(schema)) {
 		/* Since sequences extend their allocation for each entry,
 		 * they're handled in the sequence-specific code.
-- 
2.43.0


From ab0d74d5ebcbcc1c648536078cbe2baec93201bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 16/22] fix: copy: Get the right length for non-pointer
 sequences.

The size of what the entries point to was used for pointer entries, and
nested fixed-length sequence entries were counted as one element each.
---
 src/copy.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 54d5a19..be377c0 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -663,9 +663,20 @@ static size_t cyaml__get_data_len(
 		const cyaml_schema_value_t *schema,
 		unsigned seq_count)
 {
-	size_t len = cyaml__is_sequence(schema) ?
-			schema->sequence.entry->data_size :
-			schema->data_size;
+	size_t len = schema->data_size;
+
+	if (cyaml__is_sequence(schema)) {
+		const cyaml_schema_value_t *entry = schema->sequence.entry;
+
+		if (entry->flags & CYAML_FLAG_POINTER) {
+			len = sizeof(NULL);
+		} else {
+			len = entry->data_size;
+			if (entry->type == CYAML_SEQUENCE_FIXED) {
+				len *= entry->sequence.max;
+			}
+		}
+	}
 
 	if (schema->type == CYAML_SEQUENCE) {
 		len *= seq_count;
-- 
2.43.0


From decc4c6353b51e8f78478a8c61770745ff9e4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 17/22] fix: copy: Report the location of errors in the
 backtrace.

The field following the one in error was reported, or the NULL key after
the last field, and the sequence entry count was given as the entry.
---
 src/copy.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index be377c0..282be84 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -44,6 +44,8 @@ typedef struct cyaml_state {
 			uint8_t *data;
 			uint8_t *c;
 			const cyaml_schema_field_t *field;
+			/** Field being copied, or NULL. */
+			const cyaml_schema_field_t *current;
 		} mapping;
 		/** Additional state for \ref CYAML_STATE_IN_SEQUENCE state. */
 		struct {
@@ -306,15 +308,19 @@ static void cyaml__backtrace(
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
+			if (state->mapping.current == NULL) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+				break;
+			}
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in mapping field: %s\n",
-					state->mapping.field->key);
+					state->mapping.current->key);
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"  in sequence entry: %"PRIu64"\n",
-					state->sequence.count);
+					state->sequence.entry);
 			break;
 		default:
 			break;
@@ -523,6 +529,8 @@ static cyaml_err_t cyaml__clone_mapping(
 			ctx->state->mapping.field++;
 			return CYAML_OK;
 		}
+		ctx->state->mapping.current = field;
+
 		cyaml__log(ctx->config, CYAML_LOG_INFO,
 				"Copy: [%s]\n", field->key);
 
-- 
2.43.0


From ef05290480335eaf4e4b6bacaa05116e2c8668a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 18/22] fix: utf8: Don't skip past the end of truncated
 characters.

The length after an invalid continuation byte could reach beyond that
byte, so case insensitive comparison read past the end of the string.
---
 src/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 6e32218..58e4f27 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -63,7 +63,7 @@ unsigned cyaml_utf8_get_codepoint(
 			if ((s[i] & 0xc0) != 0x80) {
 				/* Need to shorten length so we don't consume
 				 * this byte with this invalid character. */
-				*len -= i;
+				*len = i;
 				goto invalid;
 			}
 
-- 
2.43.0


From 012496c2f5f08c45fe3ba40b249c65f81eadc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 19/22] fix: load: Don't name a field in the backtrace before a
 key is read.

---
 src/load.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/load.c b/src/load.c
index 419807d..6cdfacc 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1581,6 +1581,7 @@ static cyaml_err_t cyaml__stack_push(
 	case CYAML_STATE_IN_MAP_KEY:
 		assert(schema->type == CYAML_MAPPING);
 		s.mapping.fields = schema->mapping.fields;
+		s.mapping.fields_idx = CYAML_FIELDS_IDX_NONE;
 		s.mapping.fields_count = cyaml__get_mapping_field_count(
 				schema->mapping.fields);
 		err = cyaml__mapping_bitfieid_create(ctx, &s);
-- 
2.43.0


From 787e9fde1e4666158fd9a6105d4345e242d07cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 20/22] fix: load: Accept strict floats that round to FLT_MAX.

Saving FLT_MAX gives text with nine significant digits, which as a
double is above FLT_MAX. It could not be loaded again.
---
 src/load.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/load.c b/src/load.c
index 6cdfacc..59730df 100644
--- a/src/load.c
+++ b/src/load.c
@@ -419,15 +419,14 @@ static cyaml_err_t cyaml__store_float(
 	if (schema->data_size == sizeof(float)) {
 		float fvalue;
 
+		fvalue = (float)value;
+
 		if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
-			if (value > FLT_MAX || value < -FLT_MAX) {
+			/* Overflow: Values that round to FLT_MAX are in range. */
+			if (fvalue > FLT_MAX || fvalue < -FLT_MAX) {
 				return CYAML_ERR_INVALID_VALUE;
 			}
-		}
 
-		fvalue = (float)value;
-
-		if (cyaml__flag_check_all(schema->flags, CYAML_FLAG_STRICT)) {
 			/* Underflow: Too small for float, and inexact. */
 			if (value < FLT_MIN && value > -FLT_MIN &&
 			    value != (double)fvalue) {
-- 
2.43.0


From 677bf4abfdfac355fb4fc5ba90b106f3c06a4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 21/22] fix: copy: Copy sequences that have a place but no
 entries.

---
 src/copy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index 282be84..d68c5c1 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -259,6 +259,10 @@ static cyaml_err_t cyaml__data_handle_pointer(
 			delta = strlen((const char *) *value_data_io) + 1;
 			break;
 		case CYAML_SEQUENCE:
+			if (state->sequence.count == 0) {
+				/* Nothing to allocate; copies start zeroed. */
+				return CYAML_OK;
+			}
 			delta *= state->sequence.count;
 			break;
 		case CYAML_SEQUENCE_FIXED:
-- 
2.43.0


From ace9cf84616477c7751a6d4db77843826be3602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 22/22] fix: save: Quote empty strings at the top level.

Unquoted, an empty string as the top level value was written as a stream
with no document at all, which loads as no data.
---
 src/save.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index c4d0792..2b73af6 100644
--- a/src/save.c
+++ b/src/save.c
@@ -495,6 +495,14 @@ static cyaml_err_t cyaml__emit_scalar(
 {
 	int ret;
 	yaml_event_t event;
+	yaml_scalar_style_t style = cyaml__get_emit_style_scalar(schema);
+
+	if (ctx->state->state == CYAML_STATE_IN_DOC && value[0] == '\0' &&
+			(style == YAML_ANY_SCALAR_STYLE ||
+			 style == YAML_PLAIN_SCALAR_STYLE)) {
+		/* Unquoted, this would leave the output without a document. */
+		style = YAML_SINGLE_QUOTED_SCALAR_STYLE;
+	}
 
 	if (schema->type == CYAML_MAPPING) {
 		cyaml__log(ctx->config, CYAML_LOG_INFO, "Save: [%s]\n", value);
@@ -507,7 +515,7 @@ static cyaml_err_t cyaml__emit_scalar(
 			(yaml_char_t *)tag,
 			(yaml_char_t *)value,
 			(int)strlen(value),
-			1, 1, cyaml__get_emit_style_scalar(schema));
+			1, 1, style);
 
 	return cyaml__emit_event_helper(ctx, ret, &event);
 }
-- 
2.43.0

