package rng

// This is github.com/leesper/go_rng with one addition: the draws can be chosen
// from outside. With both functions nil it behaves as the original.

// Uniform, when set, gives every draw from [0,1).
var Uniform func() float64

// Normal, when set, gives every draw from the standard normal distribution.
var Normal func() float64
