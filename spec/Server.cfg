INIT SInit
NEXT SNext
VIEW SView
CHECK_DEADLOCK FALSE
