package kit

import (
	"context"
	"runtime"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"
)

// Tracer is the recording fake behind the OpenTelemetry API: a conforming
// in-memory tracer that keeps every span and what was done to it.
type Tracer struct {
	embedded.TracerProvider
	W     *W
	Spans []*Span
	// ReqOf names the request a context belongs to.
	ReqOf func(ctx context.Context) int
	n     int
}

// Span is one recorded span.
type Span struct {
	embedded.Span
	tr     *Tracer
	ID     int
	Trace  int
	Parent *Span
	Name   string
	User   bool // started by the harness
	G      int
	Req    int
	Ends   int
	Late   int // things recorded after the end
	Events []string
	Errs   int
	Code   codes.Code
	Start  uint64
	EndSeq uint64
	done   bool
}

//go:norace
//go:noinline
func (t *Tracer) Tracer(name string, o ...trace.TracerOption) trace.Tracer {
	return &tracerImpl{t: t}
}

type tracerImpl struct {
	embedded.Tracer
	t *Tracer
}

//go:norace
//go:noinline
func (ti *tracerImpl) Start(ctx context.Context, name string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	t := ti.t
	runtime.SimPoint()
	var s *Span
	if RaceMode {
		s = &Span{tr: t}
	} else {
		parent, _ := trace.SpanFromContext(ctx).(*Span)
		s = t.add(name, parent, false)
		if t.ReqOf != nil {
			s.Req = t.ReqOf(ctx)
		}
	}
	return trace.ContextWithSpan(ctx, s), s
}

//go:norace
//go:noinline
func (t *Tracer) add(name string, parent *Span, user bool) *Span {
	t.n++
	s := &Span{tr: t, ID: t.n, Trace: t.n, Parent: parent, Name: name, User: user, G: runtime.SimGoID(), Req: -1}
	if parent != nil {
		s.Trace = parent.Trace
	}
	t.Spans = append(t.Spans, s)
	s.Start = t.W.Ev("span-start", s.ID, 0)
	return s
}

// Root starts a span that belongs to the user of the library.
//
//go:norace
//go:noinline
func (t *Tracer) Root(ctx context.Context, name string) (context.Context, *Span) {
	var s *Span
	if RaceMode {
		s = &Span{tr: t, User: true}
	} else {
		parent, _ := trace.SpanFromContext(ctx).(*Span)
		s = t.add(name, parent, true)
	}
	return trace.ContextWithSpan(ctx, s), s
}

// UserEnd is the end of a user's span by its owner.
//
//go:norace
//go:noinline
func (s *Span) UserEnd() { s.done = true }

//go:norace
//go:noinline
func (s *Span) Done() bool { return s.done }

//go:norace
//go:noinline
func (s *Span) End(o ...trace.SpanEndOption) {
	runtime.SimPoint()
	s.done = true
	if RaceMode {
		return
	}
	s.Ends++
	s.EndSeq = s.tr.W.Ev("span-end", s.ID, s.Ends)
	if s.User {
		s.tr.W.Fail("foreign-span-ended", "the library ended a span it did not start:", s.Name)
	}
	if s.Ends > 1 {
		s.tr.W.Fail("span-ended-twice", "the span was ended again:", s.Name)
	}
}

//go:norace
//go:noinline
func (s *Span) record(what string) {
	runtime.SimPoint()
	if RaceMode {
		return
	}
	if s.done && !s.User {
		s.Late++
		s.tr.W.Fail("recorded-after-end", "something was recorded on a span that had ended:", s.Name, what)
	}
	s.Events = append(s.Events, what)
}

//go:norace
//go:noinline
func (s *Span) AddEvent(name string, o ...trace.EventOption) { s.record(name) }

//go:norace
//go:noinline
func (s *Span) AddLink(link trace.Link) { s.record("link") }

//go:norace
//go:noinline
func (s *Span) IsRecording() bool {
	runtime.SimPoint()
	return !s.done
}

//go:norace
//go:noinline
func (s *Span) RecordError(err error, o ...trace.EventOption) {
	s.record("error")
	s.Errs++
}

//go:norace
//go:noinline
func (s *Span) SpanContext() trace.SpanContext {
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: trace.TraceID{1, byte(s.Trace), byte(s.Trace >> 8)},
		SpanID: trace.SpanID{1, byte(s.ID), byte(s.ID >> 8)}, TraceFlags: trace.FlagsSampled})
}

//go:norace
//go:noinline
func (s *Span) SetStatus(c codes.Code, d string) {
	s.record("status")
	s.Code = c
}

//go:norace
//go:noinline
func (s *Span) SetName(name string) { s.record("name") }

//go:norace
//go:noinline
func (s *Span) SetAttributes(kv ...attribute.KeyValue) { s.record("attributes") }

//go:norace
//go:noinline
func (s *Span) TracerProvider() trace.TracerProvider { return s.tr }
