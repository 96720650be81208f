INIT SInit
NEXT SStep
