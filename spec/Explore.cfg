INIT Init
NEXT Next
VIEW View
INVARIANT Budgeted
INVARIANT QueuedOnce
INVARIANT OneInstance
INVARIANT IdleIsIdle
INVARIANT BetweenTurns
INVARIANT CallDepth
INVARIANT Handlers
INVARIANT NoScriptsOfDeleted
INVARIANT BarsIssued
PROPERTY PFair
PROPERTY PWarped
PROPERTY PMortal
PROPERTY PBorn
PROPERTY PNextOfQueue
PROPERTY PFifo
PROPERTY PNothingDropped
PROPERTY PFlagStarts
PROPERTY PStopStops
PROPERTY PAdds
PROPERTY PKeyStarts
PROPERTY PEventQueues
PROPERTY PMessagesQueue
PROPERTY PBroadcasts
PROPERTY PWaits
PROPERTY PSleeps
PROPERTY PStops
PROPERTY PClones
PROPERTY PDeletes
PROPERTY PForks
CHECK_DEADLOCK FALSE
