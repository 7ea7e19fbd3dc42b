package main

func init() {
	register("P23", checkLocks)
	register("P06", checkCache)
	register("P01", checkDecode)
	register("P02", checkAccessors)
	register("P08", checkErrors)
	register("P15", checkWireDecode)
	register("P24", checkChans)
	register("P17", checkStreams)
	register("P09", checkConversions)
	register("P05", checkLayout)
	register("P07", checkReaders)
	register("P31", checkTyped)
	register("P16", checkWireLayout)
	register("P26", checkEvents)
	register("P20", checkFtdcValues)
	register("P21", checkDelta)
	register("P13", checkIterators)
	register("P33", checkHandover)
	register("P34", checkSums)
	register("P22", checkCollectors)
	register("P29", checkEffects)
	register("P30", checkPools)
	register("P03", checkEncode)
	register("P04", checkPlaces)
	register("P11", checkLists)
}
