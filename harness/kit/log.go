package kit

import "runtime"

// LogLine is one line the code under test logged.
type LogLine struct {
	T    int64
	G    int
	Text string
}

// LogSink replaces the output of the standard logger.
type LogSink struct {
	w     *W
	Lines []LogLine
}

// Log is installed as the output of package log.
var Log = &LogSink{}

//go:norace
//go:noinline
func (l *LogSink) Reset(w *W) {
	l.w = w
	l.Lines = nil
}

//go:norace
//go:noinline
func (l *LogSink) Write(b []byte) (int, error) {
	if RaceMode || l.w == nil {
		return len(b), nil
	}
	l.Lines = append(l.Lines, LogLine{T: runtime.SimNow(), G: runtime.SimGoID(), Text: string(b)})
	l.w.Ev("log", len(l.Lines), 0)
	return len(b), nil
}

//go:norace
//go:noinline
func (l *LogSink) Last() string {
	if len(l.Lines) == 0 {
		return ""
	}
	s := l.Lines[len(l.Lines)-1].Text
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}
