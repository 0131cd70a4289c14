package main

// The functions of the expression standard library, straight from math/bits.

import (
	"math/bits"
	"reflect"
)

var bitsFuncs = map[string]interface{}{
	"LeadingZeros":    bits.LeadingZeros,
	"LeadingZeros8":   bits.LeadingZeros8,
	"LeadingZeros16":  bits.LeadingZeros16,
	"LeadingZeros32":  bits.LeadingZeros32,
	"LeadingZeros64":  bits.LeadingZeros64,
	"Len":             bits.Len,
	"Len8":            bits.Len8,
	"Len16":           bits.Len16,
	"Len32":           bits.Len32,
	"Len64":           bits.Len64,
	"OnesCount":       bits.OnesCount,
	"OnesCount8":      bits.OnesCount8,
	"OnesCount16":     bits.OnesCount16,
	"OnesCount32":     bits.OnesCount32,
	"OnesCount64":     bits.OnesCount64,
	"Reverse":         bits.Reverse,
	"Reverse8":        bits.Reverse8,
	"Reverse16":       bits.Reverse16,
	"Reverse32":       bits.Reverse32,
	"Reverse64":       bits.Reverse64,
	"ReverseBytes":    bits.ReverseBytes,
	"ReverseBytes16":  bits.ReverseBytes16,
	"ReverseBytes32":  bits.ReverseBytes32,
	"ReverseBytes64":  bits.ReverseBytes64,
	"RotateLeft":      bits.RotateLeft,
	"RotateLeft8":     bits.RotateLeft8,
	"RotateLeft16":    bits.RotateLeft16,
	"RotateLeft32":    bits.RotateLeft32,
	"RotateLeft64":    bits.RotateLeft64,
	"TrailingZeros":   bits.TrailingZeros,
	"TrailingZeros8":  bits.TrailingZeros8,
	"TrailingZeros16": bits.TrailingZeros16,
	"TrailingZeros32": bits.TrailingZeros32,
	"TrailingZeros64": bits.TrailingZeros64,
}

var bitsPkg = func() map[string]MV {
	m := map[string]MV{}
	for n, f := range bitsFuncs {
		m[n] = MV{K: MComp, R: reflect.ValueOf(f)}
	}
	return m
}()
