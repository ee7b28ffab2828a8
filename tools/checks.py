#!/usr/bin/env python3
"""Source of checks.json: python3 tools/checks.py > checks.json"""
import json
L=[]
def c(prop,harness,bounds,reach=(),qd=0,qt=100,td=None,tt=800,q=None,t=None):
    d=dict(prop=prop,harness="H_"+harness,bounds=bounds,reach=list(reach),quick=dict(dev=qd,timeout=qt),thorough=dict(dev=qd if td is None else td,timeout=tt))
    d["quick"].update(q or {}); d["thorough"].update(t or {}); L.append(d)
SCH="; schedules with at most dev deviations from run-to-block order"
c("C01","CodecBuffer","every packet kind the factory builds; ids, session ids, flags, codes symbolic (full width); payload/custom/meta/error/topic up to 3 symbolic bytes each",["decoded"],qt=60)
c("C01","CodecStream","two packets of every kind back to back; writer accepting 1..n bytes per call; reader split at every offset or byte by byte")
c("C01","CodecTogether","two streams encoded and decoded at once, few bytes at a time; 8 pairs of kinds covering all but three, symbolic content; each twice")
c("C01","CodecLarge","raw packets of 255..70001 bytes, ends and ids symbolic",["large"],qt=60)
c("C01","CodecLargeData","connect, session, message, request, register packets with 60..3000 byte content, ends and ids symbolic",["large"],qt=60)
c("C02","MalformedBuffer","every kind byte and announced length 0..24 with payload bytes symbolic",["decoded","rejected"])
c("C02","MalformedStream","as H_MalformedBuffer, read from a stream",["decoded","rejected"])
c("C02","TruncatedValid","every kind, cut at every byte",qt=60)
c("C03","IDCounters","every mode and option mix; start value of the counter symbolic (64 bits); up to 4 ids",["counters"],2,60,3)
c("C03","IDSides","an odd and an even source with symbolic starts",["sides"],2,60,3)
c("C03","IDUnique","up to 4 ids of one unique source with reservations",["unique"],2,60,3)
c("C03","IDUniqueConc","two goroutines drawing from one source"+SCH,[],2,60,3)
c("C03","IDRelease","reserve, draw, release, draw in any order up to 4 steps",["release"],2,60,3)
c("C04","Handshake","metadata up to 2 symbolic bytes, wanted id and delegate's decision symbolic"+SCH,["connected","refused"],1,100,2)
c("C04","HandshakeInsist","a client that asks for a fixed id, symbolic",["insist"],1,60,2)
c("C04","HandshakeMany","two clients of one server"+SCH,["many"],1,60,2)
c("C05","ConnTraffic","1..3 packets of symbolic content each way, from the constructors' return on; connection buffers of 1 or 32; transport whole or byte by byte"+SCH,["traffic"],1,150,2)
c("C05","ConnEcho","250 packets the peer echoes where it reads them, more than all buffers hold, read meanwhile",["echoed"])
c("C05","ConnDrain","1..3 packets then close, by client or server, with and without a heartbeat exchange in flight; connection buffers 1 or 32"+SCH,["drain"],1,150,2)
c("C06","ConnClose","closes by client, server, both, repeated, concurrent and with a loss of the transport, 0..2 packets in flight each way, connection buffers 1 or 32; memory-level interleaving of the close"+SCH,["closed"],1,150,2)
c("C06","ConnCloseAtOnce","closes as soon as the constructors return"+SCH,["closed"],2,100,3)
c("C06","ConnMute","either side closes with 0 or 3 packets queued, connection buffers 1 or 32, towards a peer that takes nothing, gets nothing, or gets and says nothing"+SCH,["mute"],1,60,2)
c("C07","ConnCut","the transport fails after any of 0..139 bytes of either direction through handshake, two packets each way and a close by either side; connection buffers 1 or 32"+SCH,["cut","connect failed"],1,300,2)
c("C07","ConnStall","40 packets written to a connection of buffer size 1 whose transport stalls or fails after 0..29 bytes"+SCH,["stall"],1,100,2)
c("C08","ServerHeartbeat","the four announced intervals; up to 2 (3) heartbeats at gaps of 1 s, one interval and just under two; with data, with a transport that stops; "+SCH[2:],["dropped"],1,150,2)
c("C08","ClientHeartbeat","120 s of a client idle or busy, acknowledged or not"+SCH,["beating"],1,60,2)
c("C08","IdleLive","1..4 idle minutes, then a packet each way"+SCH,["idle"],1,60,2)
ENDS="; either end calling, over the end itself, a stream it opened or one it accepted"
c("C09","Open","0..2 streams opened by each side at once, metadata of 0..2 and peer names of 0..1 symbolic bytes, accepted meanwhile or later",["opened"])
c("C09","OpenRace","two streams opened at once by one or both sides, left, written to, or written to and closed"+SCH,["opened"],1,150,2)
c("C09","OpenFunc","1..2 streams opened at once on a server that takes streams by function, registering methods, slow or not, closed at once, later or with the end"+SCH,["functions"],1,150,2)
c("C09","OpenGone","opening on an end closed by either side or with a lost transport, at once or a second later",["refused"])
c("C09","OpenMany","32 streams awaiting acceptance, twice, by either side",["many"])
c("C10","Sent","a request, message or write on one of the end itself, a stream it opened and one it accepted; symbolic data",["sent"])
c("C10","Isolated","call, publish, write, read deadline and call timeout pending on one stream while another is opened, used, used up to its buffers, or closed by either side, idle or with operations pending; every kind of stream",["isolated"])
c("C10","IsolatedRace","as H_Isolated"+SCH,["isolated"],1,250,1)
c("C10","ClosingTraffic","as for C11",["closed"],1,150,2)
c("C11","Closing","a stream opened by either end, closed by one side, both, twice or all of it, at once or later, with nothing, calls and reads, calls and publishes, or written data (symbolic) pending on both sides, beside another stream",["closed"])
c("C11","ClosingRace","as H_Closing"+SCH,["closed"],1,200,1)
c("C11","ClosingTraffic","up to 3 calls, publishes or writes, or 100 messages nobody waits for, of a symbolic byte while either side closes the stream"+SCH,["closed"],1,150,2)
c("C12","Calls","2 (3) outstanding calls, each Call, CallAsync or CallAsync with the caller's channel; handlers returning data or an error text, in any completion order; all data symbolic, 0 or 1 byte each, with and without custom data"+ENDS,["called"])
c("C12","CallsRace","2 outstanding calls, symbolic data"+SCH,["called"],1,150,2)
c("C12","CallsBothWays","a call from each end at once, the handlers calling back or not"+SCH,["both ways"],1,150,2)
c("C12","CallsUnread","2 outstanding asynchronous calls whose completions are taken only after a third call, with channels of their own, the caller's, or one for both; all data symbolic"+ENDS,["unread"],0,100,1)
c("C13","Routes","0..2 registered methods, no hijacker, one for all, one matching a pattern or its complement, a pattern that matches the empty method name, or only a Match option; registered and called names symbolic, one letter; symbolic data"+ENDS,["handled","unhandled"])
c("C13","Registered","1..2 methods given as options, waited for and checked by the peer, client or server"+SCH,["registered"],1,150,2)
c("C14","CallExpiry","call or asynchronous call limited by option, request timeout, context deadline, both at once (either the earlier), or cancel of 15 ms, 1 s or 3 min; answered at a third of it, at it, 50 ms after or long after; with or without another call"+ENDS,["expired"])
c("C14","CallExpiryRace","as H_CallExpiry with a limit of 1 s"+SCH,["expired"],1,200,1)
c("C14","CallOver","negative and tiny timeouts, ended contexts; call or asynchronous call",["over"])
c("C14","Stalled","call, asynchronous call, publish and asynchronous publish on a transport that takes nothing, queues empty or full, limited by timeout, deadline or cancel"+SCH,["stalled"],1,150,2)
c("C14","StalledCancel","a call cancelled, both sides, sync and async, while its handler runs, the transport takes no data and the queues are full or not; then the transport goes on"+SCH,["went on"],qd=1,td=2)
c("C15","Messages","3 messages, each at any consistency, published synchronously, asynchronously or with the publisher's channel; data, custom bytes, topic symbolic; acknowledged or not"+ENDS,["received"])
c("C15","MessagesRace","3 messages, symbolic data"+SCH,["received"],1,150,2)
c("C15","MessagesMany","250 (600) messages, more than all queues hold, before anybody receives or while receiving",["many"])
c("C16","Acks","2 outstanding publishes, marked done, failed, nothing or too late, in either order; limited by option, message timeout, context deadline, both at once (either the earlier), cancel or nothing; every way of publishing; error text symbolic",["acknowledged"])
c("C16","AcksRace","as H_Acks, fewer ways"+SCH,["acknowledged"],1,200,1)
c("C16","AcksUnread","2 outstanding asynchronous publishes whose completions are taken only after a third, with channels of their own, the publisher's, or one for both; error text symbolic"+SCH,["unread"],1,100,1)
c("C16","AtMostOnce","one at-most-once publish of every kind, acknowledged or not"+SCH,["at most once"],1,150,1)
c("C16","Stalled","as for C14",["stalled"],1,150,2)
c("C17","Raw","2 (3) writes of 0..3 symbolic bytes read with three buffers of 0..3 bytes, then the writer closing or not"+ENDS,["read","end"])
c("C17","RawRace","2 writes of 0..3 symbolic bytes read with buffers of 0..3 bytes"+SCH,["read","end"],1,200,1)
c("C17","RawReaders","2 concurrent writers and readers; interleaving at memory accesses"+SCH,["readers"],1,200,1)
c("C17","RawMany","150 (600) writes, more than the queues hold, reader at once or late, closing or not",["many"])
c("C17","RawEcho","500 one-byte writes the peer echoes where it reads them, more than all buffers hold",["echoed"])
c("C18","ReadDeadline","a read deadline none, past, before or after the data or with the data there already, set before or during the read, by SetReadDeadline or SetDeadline, moved, cleared, and the next read"+ENDS,["read","timed out","again"],0,100,1)
c("C18","ReadDeadlineRace","as H_ReadDeadline"+SCH,["read","timed out","again"],1,150,2)
c("C18","DeadlineMoved","read deadline of 200 ms moved or cleared at the moment it passes, while a read waits; then reads again, with and without data"+SCH,["moved"],qd=1,td=2)
c("C18","DeadlineSides","read deadline and a write, write deadline and a read"+SCH,["sides"],1,150,2)
c("C18","WriteDeadline","a write blocked on a stalled transport, its deadline set before or during it"+SCH,["write deadline"],1,150,2)
c("C19","Down","accepts, reads, receives, calls, publishes pending on both ends and a stream of every kind; or open, register, call, publish, read, a write blocked on full queues at an end whose transport takes or delivers nothing; then its own close, the peer's, both, a lost transport, one failing within a packet or ended by one side; at once or later",["down"])
c("C19","DownOpens","one or both ends opening streams, accepted meanwhile or not, while an end is closed, both are, or the transport is lost or ended"+SCH,["down"],1,200,1)
c("C19","DownRace","as H_Down, streams opened by the end itself"+SCH,["down"],1,250,1)
c("C19","OpenGone","as for C09",["refused"])
c("C19","ClosingTraffic","as for C11",["closed"],1,150,1)
c("C20","Retry","1..2 losses (cut, closed by the server, failing within a packet), the second after or during the reconnecting, 0 or 2 failing dials each, with calls and publishes, accepts, or opens and calls pending; a delegate objecting or not; symbolic data",["reconnected"],0,100,1)
c("C20","RetryRace","as H_Retry with one loss and, in the quick tier, one failing dial"+SCH,["reconnected"],1,300,1)
c("C20","RetryClose","two closes at once, before or at five moments after the loss, a dial in progress or failing, accepts and receives pending, own timer or not"+SCH,["closed"],1,150,2)
c("C20","RetryFirst","the first connection lost while the client is created, at five moments, a dial failing or not"+SCH,["created","failed"],1,100,2)
c("C20","RetryRegister","a register and a hijack while the connection is lost"+SCH,["registered"],1,100,2)
c("C20","RetryOps","call, asynchronous call, publish, asynchronous publish, receive, accept, read or write started 0.1 or 2.5 s after the loss, dials failing or not"+SCH,["carried out"],1,150,2)
for h in "OptCall OptRequest OptPublish OptMessage OptStream OptHijack OptClientEnd OptServerEnd".split():
    c("C21",h,"up to 3 option values merged, fields symbolic",["merged"],qt=60,tt=300)
c("C21","Registered","as for C13",["registered"],1,150,1)
c("C22","Handshake","as for C04",["connected","refused"],1,100,2)
c("C22","ConnClose","as for C06",["closed"],1,150,2)
c("C22","Delegates","4 streams opened by both ends with symbolic metadata, two closed before; the connection ended by either end, both, a lost transport or one failing within a packet, while a stream is being opened or closed"+SCH,["ended"],0,100,1)
c("C22","DelegatesRace","as H_Delegates with 2 streams"+SCH,["ended"],1,200,1)
c("C22","ClosingTraffic","as for C11",["closed"],1,150,1)
c("C22","OpenRace","as for C09",["opened"],1,150,2)
c("C22","OpenFunc","as for C09",["functions"],1,150,2)
c("C23","Registered","1..2 methods given as options, waited for and checked by the peer, client or server"+SCH,["registered"],1,150,2)
c("C23","RegisteredLater","1..3 methods waited for by the client or the server, with or without the check; 1..3 registrations of those, others and on another stream; then the connection closed by the peer or lost if some are missing"+SCH,["later","in vain"],1,150,1)
c("C24","Listen","2 (3) clients, each well-behaved, silent for 3 or 40 s, leaving at once or sending garbage; accepts one by one, as many as clients or one more; symbolic metadata and data"+SCH,["listened"],1,150,2)
c("C24","ListenClose","2 clients, one of them silent or not, 1..2 accepts and a close at once"+SCH,["closed"],2,200,3)
c("C24","ListenFail","listening fails, dialling fails, nobody accepts",["failed"])
c("C25","Identity","0..2 (3) streams opened by either side with symbolic metadata and peer; looked at, then the client's end closed, the transport lost, a stream closed or bytes exchanged, and looked at again",["told"])
c("C25","IdentityAgain","a reconnecting client before and after 1..2 losses",["told"])
c("C25","Open","as for C09",["opened"])
print("[\n"+",\n".join(json.dumps(x) for x in L)+"\n]")
