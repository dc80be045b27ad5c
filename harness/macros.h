/* Schemas that tools/macros.py writes in the terms of the header's macros */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <cyaml/cyaml.h>

struct macro_env {
	cyaml_schema_value_t **ty;      /* to be filled, from 1 */
	uint8_t **st;                   /* static data, from 3 */
	void *scn;
	void *(*alloc)(void *scn, size_t n);
	void (*note)(const cyaml_schema_value_t *value, int ty);
	cyaml_validate_int_fn_t cb_int;
	cyaml_validate_uint_fn_t cb_uint;
	cyaml_validate_float_fn_t cb_float;
	cyaml_validate_string_fn_t cb_string;
	cyaml_validate_mapping_fn_t cb_mapping;
	cyaml_validate_sequence_fn_t cb_sequence;
};
struct macro_entry { const char *id; void (*build)(struct macro_env *); };

/* false: no such scenario here */
bool macro_schemas(const char *id, struct macro_env *e) __attribute__((weak));
