SPECIFICATION Spec
INVARIANTS WalkIsExact FormatOutsideData BlocksPartition CapacityFits LevelsOrdered VersionsGrow FormatDistance ParityIsCodeword
CHECK_DEADLOCK FALSE
