SPECIFICATION Spec
CONSTANTS
  Scn <- MCScn
  RawEvents <- RawMC
INVARIANTS Safe CleanFailure LoadMeans LoadGives LoadOwned LoadPlaced LoadAsks OomTrue LoadTraced Explained LoadWarned SaveMeans SaveGives SaveReads CopyGives CopyFailsClean CopySucceeds FreeAll FreeAll2 DefaultsKept
