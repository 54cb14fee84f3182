package state

import (
	"reflect"
	"strings"
)

// eachCdfField calls f with every CDF field of the current frame and tile.
func (s *State) eachCdfField(f func(name string, v reflect.Value)) {
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		if strings.HasSuffix(name, "Cdf") && !strings.HasPrefix(name, "Saved") {
			f(name, v.Field(i))
		}
	}
}

func copyCdf(v reflect.Value, resetCounter bool) {
	if v.Kind() == reflect.Slice {
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(c, v)
		v.Set(c)
	}
	if v.Type().Elem().Kind() == reflect.Int {
		if resetCounter && v.Len() > 0 {
			v.Index(v.Len() - 1).SetInt(0)
		}
		return
	}
	for i := 0; i < v.Len(); i++ {
		copyCdf(v.Index(i), resetCounter)
	}
}

// OwnTileCdfs makes the CDFs of the current tile copies, which adapt
// without changing the arrays that they were taken from.
func (s *State) OwnTileCdfs() {
	s.eachCdfField(func(name string, v reflect.Value) {
		if strings.HasPrefix(name, "Tile") {
			copyCdf(v, false)
		}
	})
}

// ResetCdfCounters makes the CDFs of the frame copies whose symbol counters are zero.
func (s *State) ResetCdfCounters() {
	s.eachCdfField(func(name string, v reflect.Value) {
		if !strings.HasPrefix(name, "Tile") {
			copyCdf(v, true)
		}
	})
}
