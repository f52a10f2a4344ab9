package main

import "math/big"

// Suite is the interface of [suite], independent of the element type.
type Suite interface {
	paramFormula(t *T, n, b int)
	probe(n int)
	paramRun(t *T, n, b int)
	honest(t *T, n, b, k, rounds int)
	overDegree(t *T, n int)
	falseClaims(t *T, n, b, k int)
	falsePairs(t *T, n, b int)
	keySpread(t *T, n, b, k int)
	lies(t *T, n, b, step int)
	mutate(t *T, n, b, k int)
	commitNoise(t *T, n, b int, pat string)
	gaussParams(t *T, n int)
	oversized(t *T, n, b, k int)
	transcript(t *T, n, b, k int)
	chalRange(t *T)
	influence(t *T, n, b int)
	bkRandom(t *T, rank, k int)
	bkNest(t *T, kind string)
	bkEdge(t *T, kind string, rank int)
	bkApxHonest(t *T, rank int)
	bkArith(t *T, rank, k int)
	bkManyNorms(t *T, kind string, rank, n int)
	bkMany(t *T, kind, shape string, rank, n int)
	bkWide(t *T, kind, shape string, rank, n int)
	bkSystem(t *T, kind string, rank, k int)
	bkLin(t *T, rank, k int)
	bkSum(t *T, rank, k int)
	bkInf(t *T, rank, k int)
	bkTwo(t *T, rank, k int)
	bkApx(t *T, rank, k int)
	bkApxZero(t *T)
	bkApxWide(t *T, rank int, B *big.Int)
	bkInPlace(t *T, rank, k int)
	pcsInPlace(t *T, n, b int)
	bkProjMatrix(t *T, rank int)
	ntt(t *T, cyc bool, rank int)
	nttRefuse(t *T)
	ringOps(t *T, cyc bool, rank int)
	polyOps(t *T)
	romPoly(t *T, rank int)
	romPCS(t *T, n, b int)
	romSNARK(t *T, rank, k int)
	linMaps(t *T, rank int)
	linLong(t *T, rank int)
	derivedMaps(t *T, rank int, bounds []*big.Int)
	concPCS(t *T, n, b, k int)
	concEval(t *T, rank, k int)
	concSNARK(t *T, rank, k int, apx bool)
	concCold(t *T, k int)
	polyGuard(t *T, lo, hi int)
	pcsGuard(t *T, n, b int)
	bkBind(t *T, rank, k int)
	bkChal(t *T, rank, k int)
	declared(t *T, rank int)
	bkBits(t *T, rank, mix int)
	linSpread(t *T, rank int)
	bkTamper(t *T, rank, k int)
	bkZK(t *T, rank, k int)
	bkBlindBits(t *T)
	pcsHist(t *T, n, b, k int)
	bkHist(t *T, rank, k int)
	bkCaller(t *T, rank int)
	mapHist(t *T, rank int)
	malformedAssign(t *T, kind string, rank int)
	malformedCircuit(t *T)
	malformedProof(t *T, rank, k int)
	malformedOpening(t *T, n, b int)
}
