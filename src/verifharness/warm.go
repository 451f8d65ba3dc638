package main

import (
	"bytes"
	"encoding/gob"
	"net/rpc"
	"reflect"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
)

// warmGob makes gob assign its process-wide type ids in a fixed order, so
// that the bytes of an RPC response do not depend on what ran before.
func warmGob() {
	enc := func(v any) {
		var b bytes.Buffer
		if err := gob.NewEncoder(&b).Encode(v); err != nil {
			return
		}
		p := reflect.New(reflect.TypeOf(v))
		gob.NewDecoder(&b).DecodeValue(p)
	}
	enc(rpc.Request{})
	enc(rpc.Response{})
	enc(struct{}{})
	enc("")
	var vals []any
	for _, k := range scalarKinds {
		if k == "ptime" || k == "int" || k == "uint" {
			continue
		}
		t := goType(k)
		vals = append(vals, reflect.Zero(t).Interface())
		s := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
		vals = append(vals, s.Interface())
	}
	vals = append(vals, &messages.Distribution{Ranges: []*messages.RangeWithCount{{}}})
	for _, v := range vals {
		enc(messages.Metric{Value: v, TimeStamp: time.Unix(1, 0)})
	}
	enc(messages.MetricList{{Value: int64(1), TimeStamp: time.Unix(1, 0)}})
	enc(messages.Metric{})
}
