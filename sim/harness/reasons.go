package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/jtejido/linear"
)

// What a rejection must say (C17). Before a request that must be rejected the
// reasons that are true of it are listed; the rejection must state one of them.

type reason struct {
	text  string
	check func(e linear.LinearMathError) string // "" if e states this reason
}

// keptRej is a rejection the caller holds on to.
type keptRej struct {
	e      linear.LinearMathError
	msg    string
	status int
	what   string
	why    []reason // those it states
}

var numRe = regexp.MustCompile(`[-+]?(?:\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|Inf)|NaN`)
var orderRe = regexp.MustCompile(`initial \w+ (\S+) after final \w+ (\S+)`)

func numsOf(s string) []float64 {
	var out []float64
	// in "5x6" and "(1,2)" every number counts on its own
	s = strings.NewReplacer("x", " ", ",", " ", "(", " ", ")", " ", "[", " ", "]", " ").Replace(s)
	for _, w := range strings.Fields(s) {
		if m := numRe.FindString(w); m == w {
			v, err := strconv.ParseFloat(w, 64)
			if err == nil || math.IsInf(v, 0) {
				out = append(out, v)
			}
		}
	}
	return out
}

func sameNum(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// says checks that the numbers of the message are those, in that order.
func says(e linear.LinearMathError, want ...float64) string {
	got := numsOf(e.Error())
	if len(got) != len(want) {
		return sf("message %q, want the numbers %v", e.Error(), want)
	}
	for i := range got {
		if !sameNum(got[i], want[i]) {
			return sf("message %q, want the numbers %v", e.Error(), want)
		}
	}
	return ""
}

// field checks an accessor of the error.
func field(e linear.LinearMathError, name string, want float64) string {
	var got float64
	ok := true
	switch name {
	case "Argument":
		x, is := e.(interface{ Argument() float64 })
		if ok = is; is {
			got = x.Argument()
		}
	case "Low":
		x, is := e.(interface{ Low() float64 })
		if ok = is; is {
			got = x.Low()
		}
	case "High":
		x, is := e.(interface{ High() float64 })
		if ok = is; is {
			got = x.High()
		}
	case "Min":
		x, is := e.(interface{ Min() float64 })
		if ok = is; is {
			got = x.Min()
		}
	case "Max":
		x, is := e.(interface{ Max() float64 })
		if ok = is; is {
			got = x.Max()
		}
	case "MaxCount":
		x, is := e.(interface{ Max() int })
		if ok = is; is {
			got = float64(x.Max())
		}
	case "Threshold":
		x, is := e.(interface{ Threshold() float64 })
		if ok = is; is {
			got = x.Threshold()
		}
	case "Row":
		x, is := e.(interface{ Row() int })
		if ok = is; is {
			got = float64(x.Row())
		}
	case "Column":
		x, is := e.(interface{ Column() int })
		if ok = is; is {
			got = float64(x.Column())
		}
	case "WrongRow":
		x, is := e.(interface{ WrongRowDimension() int })
		if ok = is; is {
			got = float64(x.WrongRowDimension())
		}
	case "WrongColumn":
		x, is := e.(interface{ WrongColumnDimension() int })
		if ok = is; is {
			got = float64(x.WrongColumnDimension())
		}
	case "ExpectedRow":
		x, is := e.(interface{ ExpectedRowDimension() int })
		if ok = is; is {
			got = float64(x.ExpectedRowDimension())
		}
	case "ExpectedColumn":
		x, is := e.(interface{ ExpectedColumnDimension() int })
		if ok = is; is {
			got = float64(x.ExpectedColumnDimension())
		}
	case "BoundAllowed":
		x, is := e.(interface{ IsBoundAllowed() bool })
		if ok = is; is && x.IsBoundAllowed() {
			got = 1
		}
	}
	if !ok {
		return sf("it has no %s", name)
	}
	if !sameNum(got, want) {
		return sf("%s is %v, want %v", name, got, want)
	}
	// the same by position and in the list
	if m, is := e.(interface {
		WrongDimensions() []int
		ExpectedDimensions() []int
		WrongDimension(int) int
		ExpectedDimension(int) int
	}); is {
		k := 0
		if strings.HasSuffix(name, "Column") {
			k = 1
		}
		switch name {
		case "WrongRow", "WrongColumn":
			if l := m.WrongDimensions(); len(l) != 2 || float64(l[k]) != want || float64(m.WrongDimension(k)) != want {
				return sf("WrongDimensions() = %v, WrongDimension(%d) = %d, want %v", l, k, m.WrongDimension(k), want)
			}
		case "ExpectedRow", "ExpectedColumn":
			if l := m.ExpectedDimensions(); len(l) != 2 || float64(l[k]) != want || float64(m.ExpectedDimension(k)) != want {
				return sf("ExpectedDimensions() = %v, ExpectedDimension(%d) = %d, want %v", l, k, m.ExpectedDimension(k), want)
			}
		}
	}
	return ""
}

type fv struct {
	name string
	v    float64
}

func mkReason(text string, status int, words string, nums []float64, fields ...fv) reason {
	return reason{text, func(e linear.LinearMathError) string {
		if e.Status() != status {
			return sf("status %d, want %d", e.Status(), status)
		}
		if !strings.Contains(e.Error(), words) {
			return sf("message %q does not say %q", e.Error(), words)
		}
		for _, f := range fields {
			if s := field(e, f.name, f.v); s != "" {
				return s
			}
		}
		if nums != nil {
			return says(e, nums...)
		}
		return ""
	}}
}

// whyIndex: index i is not one of n.
func whyIndex(kind string, i, n int) reason {
	b, hi := float64(i), float64(n-1)
	r := mkReason(sf("%s %d is not one of %d", kind, i, n), linear.ERANGE, kind, nil, fv{"Argument", b}, fv{"Low", 0}, fv{"High", hi})
	f := r.check
	r.check = func(e linear.LinearMathError) string {
		if s := f(e); s != "" {
			return s
		}
		for _, v := range numsOf(e.Error()) {
			if v == b {
				return ""
			}
		}
		return sf("message %q does not give the index %v", e.Error(), b)
	}
	return r
}

func whyIdx(kind string, i, n int) []reason {
	if i >= 0 && i < n {
		return nil
	}
	return []reason{whyIndex(kind, i, n)}
}

// whyRange: a..b is no range of n.
func whyRange(kind string, a, b, n int) []reason {
	out := append(whyIdx(kind, a, n), whyIdx(kind, b, n)...)
	if b < a {
		out = append(out, reason{sf("%d comes after %d", a, b), func(e linear.LinearMathError) string {
			if e.Status() != linear.ENSMALL {
				return sf("status %d, want %d", e.Status(), linear.ENSMALL)
			}
			if s := field(e, "Argument", float64(b)); s != "" {
				return s
			}
			if s := field(e, "Min", float64(a)); s != "" {
				return s
			}
			m := orderRe.FindStringSubmatch(e.Error())
			if m == nil {
				return sf("message %q does not say what comes after what", e.Error())
			}
			x, e1 := strconv.ParseFloat(m[1], 64)
			y, e2 := strconv.ParseFloat(m[2], 64)
			if e1 != nil || e2 != nil || x != float64(a) || y != float64(b) {
				return sf("message %q, but %d comes after %d", e.Error(), a, b)
			}
			return ""
		}})
	}
	return out
}

func whyBox(a, b, c, d, R, C int) []reason {
	return append(whyRange("row", a, b, R), whyRange("column", c, d, C)...)
}

// whyDim: one dimension is wrong, the other expected; which is which is the
// library's choice where neither operand is at fault more than the other.
func whyDim(wrong, expected int, either bool) []reason {
	w, x := float64(wrong), float64(expected)
	out := []reason{mkReason(sf("%d is not %d", wrong, expected), linear.EDIM, "", []float64{w, x}, fv{"Argument", w})}
	if either {
		out = append(out, whyDim(expected, wrong, false)...)
	}
	return out
}

func whyShape(wr, wc, er, ec int, either bool) []reason {
	f := func(i int) float64 { return float64(i) }
	out := []reason{mkReason(sf("%dx%d is not %dx%d", wr, wc, er, ec), linear.EMATDIM, "", []float64{f(wr), f(wc), f(er), f(ec)},
		fv{"WrongRow", f(wr)}, fv{"WrongColumn", f(wc)}, fv{"ExpectedRow", f(er)}, fv{"ExpectedColumn", f(ec)})}
	if either {
		out = append(out, whyShape(er, ec, wr, wc, false)...)
	}
	return out
}

func whySquare(r, c int) []reason {
	return []reason{mkReason(sf("%dx%d is not square", r, c), linear.ESQMAT, "square", []float64{float64(r), float64(c)}, fv{"Argument", float64(r)})}
}

// whyPositive: a dimension is not positive.
func whyPositive(ns ...int) (out []reason) {
	for _, n := range ns {
		if n <= 0 {
			out = append(out, mkReason(sf("%d is not positive", n), linear.ENOTSPOS, "smaller than, or equal to", []float64{float64(n), 0}, fv{"Argument", float64(n)}, fv{"Min", 0}, fv{"BoundAllowed", 0}))
		}
	}
	return
}
func whyNegative(n int, words string) []reason {
	return []reason{mkReason(sf("%d is negative", n), linear.ENOTPOS, words, []float64{float64(n)}, fv{"Argument", float64(n)}, fv{"Min", 0}, fv{"BoundAllowed", 1})}
}

// whyLarge: values a diagonal matrix cannot hold off its diagonal.
func whyLarge(vs ...float64) (out []reason) {
	for _, v := range vs {
		if v != 0 {
			out = append(out, mkReason(sf("%v is too large off the diagonal", v), linear.ENBIG, "larger than", []float64{math.Abs(v), 0}, fv{"Argument", math.Abs(v)}, fv{"Max", 0}, fv{"BoundAllowed", 1}))
		}
	}
	return
}

func whyPlain(status int, words string) []reason {
	return []reason{mkReason(sf("%s (status %d)", words, status), status, words, nil)}
}

func whyData() []reason {
	return append(whyPlain(linear.ENODAT, ""), whyPlain(linear.EINV, "invalid input")...)
}

// because lists the true reasons for the rejection to come.
func (x *X) because(rs ...[]reason) {
	x.why = nil
	for _, r := range rs {
		x.why = append(x.why, r...)
	}
}

// excuse says that this rejection need not be the library's own.
func (x *X) excuse() { x.excused = true }

func (x *X) judgeReason(what string, err error) {
	why, excused := x.why, x.excused
	x.why, x.excused = nil, false
	if x.w == nil || !x.w.reasons || x.t.viol != nil {
		return
	}
	for _, k := range x.t.rejs {
		if s := k.e.Error(); s != k.msg || k.e.Status() != k.status {
			x.t.fail("rejection-changed:"+k.what, "the rejection of an earlier request (%s) said %q (status %d) and now says %q (status %d)", k.what, k.msg, k.status, s, k.e.Status())
			return
		}
		for _, w := range k.why {
			if s := w.check(k.e); s != "" {
				x.t.fail("rejection-changed:"+k.what, "the rejection of an earlier request (%s) stated that %s and no longer does: %s", k.what, w.text, s)
				return
			}
		}
	}
	var v interface{} = err
	if x.out.Kind == "panic" {
		v = x.out.Val
	} else if x.out.Kind != "ok" || err == nil {
		return
	}
	if excused {
		return
	}
	e, ok := v.(linear.LinearMathError)
	if !ok {
		x.t.fail("no-reason:"+what, "%s was rejected with %T %v, which is no LinearMathError", what, v, v)
		return
	}
	msg := e.Error()
	x.t.inc("reason-judged")
	if strings.Contains(msg, "%!") || strings.Contains(msg, "{0}") || strings.TrimSpace(strings.TrimPrefix(msg, "Math Error:")) == "" {
		x.t.fail("garbled-reason:"+what, "%s was rejected with the message %q", what, msg)
		return
	}
	if s := fmt.Sprint(e.Status()); e.Status() == linear.SUCCESS || e.Status() == linear.FAILURE {
		x.t.fail("no-reason:"+what, "%s was rejected with status %s (%s)", what, s, msg)
		return
	}
	var stated []reason
	if len(why) > 0 {
		var no []string
		for _, w := range why {
			s := w.check(e)
			if s == "" {
				stated = append(stated, w)
			}
			no = append(no, w.text+": "+s)
		}
		if stated == nil {
			if len(no) > 3 {
				no = no[:3]
			}
			x.t.fail("wrong-reason:"+what, "%s was rejected with %q (status %d); true is that %s", what, msg, e.Status(), strings.Join(no, "; or "))
			return
		}
		x.t.inc("reason-confirmed")
	}
	if len(x.t.rejs) < max(12, x.w.keep) {
		x.t.rejs = append(x.t.rejs, keptRej{e, msg, e.Status(), what, stated})
	}
}

// whyRagged: a row of s has another length than the first.
func whyRagged(s [][]float64) (out []reason) {
	for i := range s {
		if len(s[i]) != len(s[0]) {
			out = append(out, whyDim(len(s[i]), len(s[0]), true)...)
		}
	}
	return
}

// whyDest: a destination has too few rows, or too short ones, for h x w.
func whyDest(s [][]float64, h, w int) (out []reason) {
	for i := range s {
		if i == 0 && len(s) < h || len(s[i]) < w {
			out = append(out, whyShape(len(s), len(s[i]), h, w, false)...)
		}
	}
	return
}
