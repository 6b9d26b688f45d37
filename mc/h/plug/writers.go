package main

import (
	"io"
	"net/http"
)

// writerWith gives a response writer over m with exactly the optional interfaces selected by mask.
func writerWith(m *mwriter, mask int) http.ResponseWriter {
	switch mask {
	case 0:
		return struct {
			http.ResponseWriter
		}{m}
	case 1:
		return struct {
			http.ResponseWriter
			http.Hijacker
		}{m, m.hijacker()}
	case 2:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
		}{m, m.notifier()}
	case 3:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
		}{m, m.hijacker(), m.notifier()}
	case 4:
		return struct {
			http.ResponseWriter
			http.Pusher
		}{m, m.pusher()}
	case 5:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
		}{m, m.hijacker(), m.pusher()}
	case 6:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
		}{m, m.notifier(), m.pusher()}
	case 7:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
		}{m, m.hijacker(), m.notifier(), m.pusher()}
	case 8:
		return struct {
			http.ResponseWriter
			http.Flusher
		}{m, m.flusher()}
	case 9:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Flusher
		}{m, m.hijacker(), m.flusher()}
	case 10:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Flusher
		}{m, m.notifier(), m.flusher()}
	case 11:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
		}{m, m.hijacker(), m.notifier(), m.flusher()}
	case 12:
		return struct {
			http.ResponseWriter
			http.Pusher
			http.Flusher
		}{m, m.pusher(), m.flusher()}
	case 13:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			http.Flusher
		}{m, m.hijacker(), m.pusher(), m.flusher()}
	case 14:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{m, m.notifier(), m.pusher(), m.flusher()}
	case 15:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{m, m.hijacker(), m.notifier(), m.pusher(), m.flusher()}
	case 16:
		return struct {
			http.ResponseWriter
			io.ReaderFrom
		}{m, m.readerFrom()}
	case 17:
		return struct {
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
		}{m, m.hijacker(), m.readerFrom()}
	case 18:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			io.ReaderFrom
		}{m, m.notifier(), m.readerFrom()}
	case 19:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{m, m.hijacker(), m.notifier(), m.readerFrom()}
	case 20:
		return struct {
			http.ResponseWriter
			http.Pusher
			io.ReaderFrom
		}{m, m.pusher(), m.readerFrom()}
	case 21:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			io.ReaderFrom
		}{m, m.hijacker(), m.pusher(), m.readerFrom()}
	case 22:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{m, m.notifier(), m.pusher(), m.readerFrom()}
	case 23:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{m, m.hijacker(), m.notifier(), m.pusher(), m.readerFrom()}
	case 24:
		return struct {
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
		}{m, m.flusher(), m.readerFrom()}
	case 25:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Flusher
			io.ReaderFrom
		}{m, m.hijacker(), m.flusher(), m.readerFrom()}
	case 26:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{m, m.notifier(), m.flusher(), m.readerFrom()}
	case 27:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{m, m.hijacker(), m.notifier(), m.flusher(), m.readerFrom()}
	case 28:
		return struct {
			http.ResponseWriter
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{m, m.pusher(), m.flusher(), m.readerFrom()}
	case 29:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{m, m.hijacker(), m.pusher(), m.flusher(), m.readerFrom()}
	case 30:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{m, m.notifier(), m.pusher(), m.flusher(), m.readerFrom()}
	case 31:
		return struct {
			http.ResponseWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{m, m.hijacker(), m.notifier(), m.pusher(), m.flusher(), m.readerFrom()}
	}
	return nil
}
