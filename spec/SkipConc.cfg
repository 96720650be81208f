INIT CInit
NEXT CNext
