SPECIFICATION Spec
CONSTANTS
  Scn <- ClientScn
  RawEvents <- ClientEvents
INVARIANTS Safe Kept Apart Alone Saved Copied DefaultsKept
