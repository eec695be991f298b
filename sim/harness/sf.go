package main

import (
	"fmt"
	"strconv"
	"strings"
)

// sf is a small Sprintf. Package fmt keeps its buffers in a sync.Pool, which
// would order simulated tasks in the eyes of the race detector; this does not.
func sf(format string, a ...interface{}) string {
	var b strings.Builder
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' || i+1 == len(format) {
			b.WriteByte(c)
			continue
		}
		i++
		if format[i] == '%' {
			b.WriteByte('%')
			continue
		}
		if k < len(a) {
			sv1(&b, a[k])
		}
		k++
	}
	return b.String()
}

// sv formats values separated by blanks.
func sv(a ...interface{}) string {
	var b strings.Builder
	for i, x := range a {
		if i > 0 {
			b.WriteByte(' ')
		}
		sv1(&b, x)
	}
	return b.String()
}

func sv1(b *strings.Builder, x interface{}) {
	switch v := x.(type) {
	case string:
		b.WriteString(v)
	case int:
		b.WriteString(strconv.Itoa(v))
	case int64:
		b.WriteString(strconv.FormatInt(v, 10))
	case uint64:
		b.WriteString(strconv.FormatUint(v, 10))
	case float64:
		b.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case []int:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(' ')
			}
			sv1(b, e)
		}
		b.WriteByte(']')
	case []float64:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(' ')
			}
			sv1(b, e)
		}
		b.WriteByte(']')
	case Ans:
		b.WriteString(v.String())
	case Outcome:
		b.WriteString(v.String())
	case error:
		b.WriteString(v.Error())
	default:
		b.WriteString(fmt.Sprint(v)) // only reached when reporting
	}
}
