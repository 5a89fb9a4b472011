package main

import "strings"

// Mix is a scenario with its weight in a property's search.
type Mix struct {
	S string
	W int
}

// Check describes how a property is searched.
type Check struct {
	Mix    []Mix
	Assume []string
}

var checks = map[string]*Check{
	"C01": {Mix: []Mix{{"traffic", 5}, {"life", 1}, {"bye", 1}}},
	"C02": {Mix: []Mix{{"traffic", 5}, {"life", 1}, {"abandon", 1}, {"bye", 1}}},
	"C03": {Mix: []Mix{{"traffic", 5}, {"rpc", 1}}},
	"C04": {Mix: []Mix{{"traffic", 1}}},
	"C05": {Mix: []Mix{{"traffic", 4}, {"life", 1}, {"dl", 1}, {"bye", 1}}},
	"C06": {Mix: []Mix{{"traffic", 1}, {"life", 2}}},
	"C07": {Mix: []Mix{{"traffic", 2}, {"life", 1}, {"abandon", 1}}},
	"C08": {Mix: []Mix{{"traffic", 3}, {"abandon", 1}}},
	"C09": {Mix: []Mix{{"dl", 1}}},
	"C10": {Mix: []Mix{{"traffic", 4}, {"life", 1}, {"hs", 1}, {"hostile", 2}}},
	"C11": {Mix: []Mix{{"traffic", 4}, {"life", 2}, {"hs", 2}, {"abandon", 1}, {"bye", 2}}},
	"C12": {Mix: []Mix{{"traffic", 2}, {"hs", 2}, {"life", 4}, {"hb", 1}, {"abandon", 1}}},
	"C13": {Mix: []Mix{{"hs", 1}}},
	"C21": {Mix: []Mix{{"hs", 1}}},
	"C14": {Mix: []Mix{{"hb", 1}}},
	"C15": {Mix: []Mix{{"retry", 1}}},
	"C16": {Mix: []Mix{{"traffic", 1}}},
	"C17": {Mix: []Mix{{"codec", 1}}},
	"C19": {Mix: []Mix{{"traffic", 2}, {"life", 1}, {"hs", 1}}},
	"C18": {Mix: []Mix{{"hostile", 1}}},
	"C20": {Mix: []Mix{{"rpc", 3}, {"traffic", 1}}},
}

// covers lists where the statement of one property covers what is reported under
// another one, by scenario ("" for all) and class (a prefix).
var covers = []struct{ prop, scen, of, class string }{
	// C02: on that same stream
	{"C02", "", "C06", "msg-misrouted"}, {"C02", "", "C06", "msg-crossed"},
	// C03: no request is executed on another stream
	{"C03", "", "C06", "call-misrouted"}, {"C03", "rpc", "C20", "wrong-handler"},
	// C05: dl checks the whole byte stream as well
	{"C05", "dl", "C09", "raw-"}, {"C05", "dl", "C09", "read-eof"}, {"C05", "dl", "C09", "write-short"},
	// C06: what is sent on a stream comes out of its counterpart, and streams
	// nobody closed stay usable
	{"C06", "traffic", "C02", "msg-invented"}, {"C06", "traffic", "C02", "msg-lost"}, {"C06", "traffic", "C02", "receive-eof"},
	{"C06", "traffic", "C05", "raw-invented"}, {"C06", "traffic", "C05", "raw-corrupt"}, {"C06", "traffic", "C05", "raw-lost"},
	{"C06", "traffic", "C05", "read-eof"}, {"C06", "traffic", "C05", "write-error"}, {"C06", "traffic", "C03", "call-invented"},
	{"C06", "traffic", "C01", "pub-spurious-error"}, {"C06", "traffic", "C03", "call-spurious-error"},
	{"C06", "traffic", "C19", "streamid-reused"},
	{"C06", "life", "C02", "msg-gap"}, {"C06", "life", "C02", "msg-ids"}, {"C06", "life", "C05", "raw-"}, {"C06", "life", "C05", "write-error"},
	{"C06", "life", "C01", "pub-spurious-error"}, {"C06", "life", "C19", "streamid-reused"},
	// C07: io.EOF at the end, Close included
	{"C07", "traffic", "C05", "read-error"}, {"C07", "", "C11", "hang:End.Close"}, {"C07", "", "C11", "hang:Stream.Close"},
	// C08: a late answer disturbs nothing
	{"C08", "traffic", "C03", "response-data"}, {"C08", "traffic", "C03", "call-wrong-error"}, {"C08", "traffic", "C03", "call-spurious-error"},
	{"C08", "traffic", "C01", "pub-wrong-error"}, {"C08", "traffic", "C01", "pub-spurious-error"}, {"C08", "traffic", "C04", "async-twice"},
	// C10: operations on a closed end return errors, Close any number of times
	{"C10", "", "C07", "after-close:"}, {"C10", "", "C11", "hang:"},
	// C11: what was written before a close arrives, the counterpart notices
	{"C11", "traffic", "C05", "raw-lost"}, {"C11", "life", "C05", "raw-cut"}, {"C11", "life", "C06", "ended-alone"},
	// C13: both sides in bounded time, the connection is released, ids not in use
	{"C13", "hs", "C11", "socket-leak"}, {"C13", "hs", "C11", "goroutine-leak"}, {"C13", "hs", "C21", "accept-missing"}, {"C13", "hs", "C19", "clientid-reused"},
	// C14: given up means Receive ends, ConnOffline once, socket closed
	{"C14", "hb", "C12", "offline-count"}, {"C14", "hb", "C11", ""}, {"C14", "hb", "C07", ""},
	// C15: everything is released, one session of its own each time
	{"C15", "retry", "C11", ""}, {"C15", "retry", "C13", "retry-"}, {"C15", "retry", "C20", "register-stuck"}, {"C15", "retry", "C01", "pub-nil-unacked"},
	// C16: nothing is dropped, nothing fails, only slowed down
	{"C16", "traffic", "C02", "msg-lost"}, {"C16", "traffic", "C02", "msg-order"}, {"C16", "traffic", "C02", "receive-eof"},
	{"C16", "traffic", "C05", "raw-"}, {"C16", "traffic", "C05", "read-eof"}, {"C16", "traffic", "C05", "write-"},
	{"C16", "traffic", "C01", "pub-spurious-error"}, {"C16", "traffic", "C01", "pub0-error"}, {"C16", "traffic", "C03", "call-spurious-error"},
	{"C16", "abandon", "C02", ""}, {"C16", "abandon", "C05", ""},
	// C19: the ids agree
	{"C19", "", "C06", "streamid-disagree"}, {"C19", "", "C06", "stream-client"}, {"C19", "", "C13", "clientid"},
	// C20: the latest function of that name on that stream, or no such rpc
	{"C20", "", "C03", "call-method"}, {"C20", "", "C03", "request-method"}, {"C20", "", "C03", "norpc-error"}, {"C20", "", "C03", "call-norpc"}, {"C20", "", "C06", "call-misrouted"},
	{"C20", "rpc", "C13", "hang:"}, {"C20", "rpc", "C03", "hang:"},
	// C21: nobody is delayed by others, what was accepted stays usable
	{"C21", "hs", "C13", "newend-failed"}, {"C21", "hs", "C13", "newend-late"}, {"C21", "hs", "C13", "hang:"}, {"C21", "hs", "C13", "accept-unknown"},
	{"C21", "hs", "C07", "receive-error"}, {"C21", "hs", "C06", "crossed"}, {"C21", "hs", "C01", "hang:"}, {"C21", "hs", "C02", "hang:"},
	// bye: what was accepted before a close arrives
	{"C01", "bye", "C11", "bye-ack-lost"}, {"C02", "bye", "C11", "bye-msg-lost"}, {"C05", "bye", "C11", "bye-raw-lost"},
}

// covered are the other properties covering a violation.
func covered(scen, prop, class string) (r []string) {
	for _, c := range covers {
		if c.of == prop && (c.scen == "" || c.scen == scen) && strings.HasPrefix(class, c.class) {
			r = append(r, c.prop)
		}
	}
	return
}
