// Code generated by tools/shimgen from math/rand/v2. DO NOT EDIT.

package zzrand2

import real "math/rand/v2"

type ChaCha8 = real.ChaCha8

var ExpFloat64 = real.ExpFloat64
var New = real.New
var NewChaCha8 = real.NewChaCha8
var NewPCG = real.NewPCG
var NewZipf = real.NewZipf
var NormFloat64 = real.NormFloat64

type PCG = real.PCG
type Rand = real.Rand
type Source = real.Source

var Uint = real.Uint
var Uint32N = real.Uint32N
var Uint64N = real.Uint64N
var UintN = real.UintN

type Zipf = real.Zipf
