// Package zzvh holds the harnesses: each function CNN_xxx states a part of
// property CNN over the public API of xcore.
package zzvh

import (
	_ "bytes"
	_ "encoding/xml"
	_ "errors"
	_ "io"
	_ "unicode/utf8"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// pair and assoc: the reference map, an association list.
type pair struct {
	k string
	v interface{}
}

type assoc struct{ e []pair }

func (a *assoc) find(k string) int {
	for i := range a.e {
		if a.e[i].k == k {
			return i
		}
	}
	return -1
}

func (a *assoc) set(k string, v interface{}) {
	if i := a.find(k); i >= 0 {
		a.e[i].v = v
		return
	}
	a.e = append(a.e, pair{k, v})
}

func (a *assoc) get(k string) (interface{}, bool) {
	if i := a.find(k); i >= 0 {
		return a.e[i].v, true
	}
	return nil, false
}

func (a *assoc) del(k string) {
	if i := a.find(k); i >= 0 {
		var n []pair
		n = append(n, a.e[:i]...)
		n = append(n, a.e[i+1:]...)
		a.e = n
	}
}

func (a *assoc) flush() { a.e = nil }

// plainKey is any key that is not a path.
func plainKey(name string, min, max int) string {
	k := vrt.Str(name, min, max, 0, 255)
	for i := 0; i < len(k); i++ {
		vrt.Assume(k[i] != '>')
	}
	return k
}

// scalar is a comparable value of some kind with symbolic content.
func scalar(name string) interface{} {
	switch vrt.Choose(name+"_kind", 5) {
	case 0:
		return anyInt(name)
	case 1:
		return vrt.Str(name+"_s", 0, 1, 0, 255)
	case 2:
		return nil
	case 3:
		return vrt.Bool(name + "_b")
	default:
		return vrt.Time(name + "_t")
	}
}

const (
	minInt = -1 << 63
	maxInt = 1<<63 - 1
)

func anyInt(name string) int { return vrt.Int(name, minInt, maxInt) }

// newDS is an empty dataset, plain or thread safe.
func newDS(ts bool) xcore.XDatasetDef {
	if ts {
		return xcore.NewXDatasetTS(&xcore.XDataset{})
	}
	return &xcore.XDataset{}
}

func newDC(ts bool) xcore.XDatasetCollectionDef {
	if ts {
		return &xcore.XDatasetCollectionTS{}
	}
	return &xcore.XDatasetCollection{}
}
