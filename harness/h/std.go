package h

import (
	"context"
	"fmt"
	"io"
)

// Library functions that need reflection, rewritten for the engine, which
// runs these in their place (the native build runs the library).

func lenAny(x any) int                 { panic("engine") }
func swapAny(x any, i, j int)          { panic("engine") }
func setAs(err error, target any) bool { panic("engine") }
func sameError(a, b error) bool        { panic("engine") }

func stdSortSlice(x any, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

func stdSliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := lenAny(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func stdErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == nil && target == nil
	}
	for {
		if sameError(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			if err = x.Unwrap(); err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if stdErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func stdErrorsAs(err error, target any) bool {
	for err != nil {
		if setAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if stdErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func stdWithValue(parent context.Context, key, val any) context.Context {
	return &valueCtx{parent, key, val}
}

func stdFprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

func stdFprint(w io.Writer, a ...any) (int, error) { return w.Write([]byte(fmt.Sprint(a...))) }

func stdFprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(fmt.Sprintln(a...))) }
