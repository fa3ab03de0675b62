// Package simlog redirects what package log does to end the process.
package simlog

import (
	"fmt"
	"io"
	"log"
	"sync"

	"recengine/internal/zzsim/rt"
)

func fatal(msg string) {
	if p := rt.CurProc(); p != nil {
		p.Data["fatal"] = msg
	}
	if rt.S != nil {
		rt.S.Ev("log.Fatal", msg)
	}
	rt.Exit(1)
}

// Fatal is log.Fatal.
func Fatal(v ...interface{}) { fatal(fmt.Sprint(v...)) }

// Fatalf is log.Fatalf.
func Fatalf(f string, v ...interface{}) { fatal(fmt.Sprintf(f, v...)) }

// Fatalln is log.Fatalln.
func Fatalln(v ...interface{}) { fatal(fmt.Sprintln(v...)) }

// Logger is log.Logger.
type Logger struct{ l *log.Logger }

var std sync.Map

func (l *Logger) get() *log.Logger {
	if l.l == nil {
		l.l = log.New(io.Discard, "", 0)
	}
	return l.l
}

// New is log.New.
func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{log.New(out, prefix, flag)}
}

// Default is log.Default.
func Default() *Logger {
	l, _ := std.LoadOrStore(0, &Logger{log.Default()})
	return l.(*Logger)
}

func (l *Logger) Print(v ...interface{})            { l.get().Print(v...) }
func (l *Logger) Printf(f string, v ...interface{}) { l.get().Printf(f, v...) }
func (l *Logger) Println(v ...interface{})          { l.get().Println(v...) }
func (l *Logger) Panic(v ...interface{})            { l.get().Panic(v...) }
func (l *Logger) Panicf(f string, v ...interface{}) { l.get().Panicf(f, v...) }
func (l *Logger) Panicln(v ...interface{})          { l.get().Panicln(v...) }
func (l *Logger) Fatal(v ...interface{})            { fatal(fmt.Sprint(v...)) }
func (l *Logger) Fatalf(f string, v ...interface{}) { fatal(fmt.Sprintf(f, v...)) }
func (l *Logger) Fatalln(v ...interface{})          { fatal(fmt.Sprintln(v...)) }
func (l *Logger) Output(d int, s string) error      { return l.get().Output(d+1, s) }
func (l *Logger) Prefix() string                    { return l.get().Prefix() }
func (l *Logger) SetPrefix(p string)                { l.get().SetPrefix(p) }
func (l *Logger) Flags() int                        { return l.get().Flags() }
func (l *Logger) SetFlags(f int)                    { l.get().SetFlags(f) }
func (l *Logger) Writer() io.Writer                 { return l.get().Writer() }
func (l *Logger) SetOutput(w io.Writer)             { l.get().SetOutput(w) }
