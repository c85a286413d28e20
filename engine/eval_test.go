package main

import (
	"bytes"
	"crypto/sha3"
	"encoding/binary"
	"testing"
)

func TestReal(t *testing.T) {
	var a [25]uint64
	a[0] = 0x1f
	a[20] = 0x80 << 56
	keccakF(&a)
	out := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], a[i])
	}
	if !bytes.Equal(out, sha3.SumSHAKE128(nil, 32)) {
		t.Fatal("keccak")
	}
	if xx64(nil) != 0xef46db3751d8e999 {
		t.Fatalf("xx %x", xx64(nil))
	}
	if xx64([]byte("Nobody inspects the spammish repetition")) != 0xfbcea83c8a378bf1 {
		t.Fatalf("xx %x", xx64([]byte("Nobody inspects the spammish repetition")))
	}
}
