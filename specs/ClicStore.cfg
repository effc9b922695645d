INIT Init
NEXT Next
CONSTANTS Splits = {"train", "val", "test"}
VIEW View
INVARIANT AskedIsFull
INVARIANT FullHasArchive
PROPERTY FetchedOnce
PROPERTY Monotone
ACTION_CONSTRAINT Emit
