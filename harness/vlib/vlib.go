// Package vlib contains the helpers shared by the conformance harnesses.
package vlib

import (
	"bufio"
	"context"
	"encoding/json"
	stderrors "errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/logging"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type nolog struct{}

func (nolog) Warnf(string, ...interface{})  {}
func (nolog) Infof(string, ...interface{})  {}
func (nolog) Debugf(string, ...interface{}) {}
func (nolog) Tracef(string, ...interface{}) {}
func (nolog) Errorf(string, ...interface{}) {}

// Quiet switches logging off
func Quiet() {
	if os.Getenv("VERIF_LOG") != "" {
		return
	}
	logging.SetConfig(logging.Config{NewLoggerF: func(string) logging.Logger { return nolog{} },
		SetLevelF: func(logging.Level) {}, GetLevelF: func() logging.Level { return logging.ERROR }})
}

// Seed returns VERIF_SEED
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// M is a JSON object
type M map[string]any

// Class returns the class of an error returned by a component: "" if nil
func Class(err error) string {
	if err == nil {
		return ""
	}
	for _, e := range []struct {
		e error
		s string
	}{{errors.ErrExist, "Exist"}, {errors.ErrNotExist, "NotExist"}, {errors.ErrInvalid, "Invalid"}, {errors.ErrConflict, "Conflict"},
		{errors.ErrExhausted, "Exhausted"}, {errors.ErrClosed, "Closed"}, {errors.ErrDataLoss, "DataLoss"}, {errors.ErrInternal, "Internal"},
		{errors.ErrNotAuthorized, "NotAuthorized"}, {errors.ErrCanceled, "Canceled"}, {errors.ErrCommunication, "Communication"},
		{errors.ErrUnimplemented, "Unimplemented"}, {context.Canceled, "Canceled"}, {context.DeadlineExceeded, "DeadlineExceeded"}} {
		if stderrors.Is(err, e.e) {
			return e.s
		}
	}
	if st, ok := status.FromError(err); ok && st.Code() != codes.Unknown {
		switch st.Code() {
		case codes.AlreadyExists:
			return "Exist"
		case codes.NotFound:
			return "NotExist"
		case codes.InvalidArgument:
			return "Invalid"
		case codes.ResourceExhausted:
			return "Exhausted"
		case codes.Canceled:
			return "Canceled"
		case codes.DeadlineExceeded:
			return "DeadlineExceeded"
		}
		return st.Code().String()
	}
	return "other"
}

// Try runs f and turns a panic into the error class "panic"
func Try(f func() error) (class string, detail string) {
	defer func() {
		if r := recover(); r != nil {
			class, detail = "panic", fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	err := f()
	if err != nil {
		detail = err.Error()
	}
	return Class(err), detail
}

// ReadLines decodes every stdin line as JSON and passes it to f
func ReadLines(f func(n int, raw []byte)) {
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	n := 0
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 1 {
			f(n, l)
			n++
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			Fatal("stdin: %v", err)
		}
	}
}

var out = bufio.NewWriterSize(os.Stdout, 1<<20)

// Emit writes v as a JSON line
func Emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		Fatal("marshal: %v", err)
	}
	out.Write(b)
	out.WriteByte('\n')
}

// Flush flushes the output
func Flush() { out.Flush() }

// Fatal ends the harness with a machinery error
func Fatal(f string, a ...any) {
	out.Flush()
	fmt.Fprintf(os.Stderr, "HARNESS: "+f+"\n", a...)
	os.Exit(7)
}

var opStart atomic.Int64

// Busy marks the beginning (true) or the end of a call of the code under test, see Watchdog
func Busy(b bool) {
	if b {
		opStart.Store(time.Now().UnixNano())
	} else {
		opStart.Store(0)
	}
}

// Watchdog ends the process after a call of the code under test that does not end or takes all memory: hung is called
// to emit what was recorded so far
func Watchdog(limit time.Duration, hung func()) {
	go func() {
		for {
			time.Sleep(20 * time.Millisecond)
			st := opStart.Load()
			if st == 0 {
				continue
			}
			d := time.Duration(time.Now().UnixNano() - st)
			var ms runtime.MemStats
			if d > 200*time.Millisecond {
				runtime.ReadMemStats(&ms)
			}
			if d > limit || ms.HeapAlloc > 1<<30 {
				hung()
				Flush()
				os.Exit(0)
			}
		}
	}()
}
