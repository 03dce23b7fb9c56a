#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that wording and anchors are edited in one place).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S,I,H,C,F,K='schedules','inputs','histories','configurations','fault_sequences','crash_points'
p('C01','Channel messages arrive intact, in order and exactly once',
 "At every moment, the sequence of messages a channel has handed to the receiving application is a prefix of the sequence of messages the peer's application successfully wrote to it, byte for byte, independently in each direction. This holds whatever datagrams the network loses, duplicates, delays or reorders, however long the channel has lived (packet numbers wrap around), and even though the application reuses its buffer as soon as a write returns.",
 [S,I,H,F],"every interleaving of the node's goroutines and timers, every message sequence, every pattern of loss, duplication, delay, reordering, transient socket errors, stalls and clock jumps",
 "The tests send over a lossless loopback; no test ever drops, duplicates or reorders a data datagram end to end, wraps the packet number, or checks order and content of a whole history.",
 ['tru.go','channel.go','packet.go','receive_queue.go','send_queue.go','crypt.go'],
 [('expected-number comparison, receive queue, drop of already processed packets','tru.go serve (statusData); receive_queue.go process'),('modular distance of packet numbers','packet.go distance'),('numbering and encryption keyed by packet number','channel.go writeTo/newID; crypt.go')],
 [('expectedID','next packet number to hand to the application','channel.go Channel'),('recvQueue','packets received ahead of order','receive_queue.go'),('sendQueue','packets not yet acknowledged','send_queue.go')],
 ['reader callbacks (global and per channel)'])
p('C02','Every accepted message is eventually delivered once the network heals',
 "After faults stop, and as long as neither side's channel has ended, every message that was successfully written is handed to the peer's application within a bounded time (10 simulated seconds), however many datagrams, acknowledgements or retransmissions were lost before. Once everything is delivered and acknowledged, nothing stays queued on either side and the sender stops retransmitting.",
 [S,H,F],"every fault sequence followed by a healed network, every schedule, every backlog",
 "No test loses a datagram, so no retransmission, back-off or recovery path is ever executed.",
 ['send_queue.go','channel.go','tru.go'],
 [('retransmission timer and back-off','send_queue.go retransmit; channel.go setRetransmitTime'),('acknowledgement removes from send queue, duplicates are acknowledged again','tru.go serve (statusAck, statusData)')],
 [('retransmitTime','when a packet is due again','packet.go Packet')],
 ['reader callbacks','Tru.Statistic (SQ, RQ)','datagrams on the wire'])
p('C03','A message of any size arrives as one identical message',
 "A message of any length from empty to many fragments arrives as exactly one message with identical bytes, for every fragment-size limit either side configured and over both IPv4 and IPv6, mixed with messages of other sizes. Loss, duplication and reordering of individual fragments never merge, truncate, split or reorder messages.",
 [I,C,S,F],"all message lengths around every fragment and cipher boundary, all fragment limits, all fragment-level fault patterns",
 "One test splits two fixed sizes at one limit on a lossless IPv6 loopback.",
 ['split.go','packet.go','channel.go','crypt.go'],
 [('split and combine','split.go splitPacket, combinePacket.packet'),('largest datagram','packet.go MaxDataLen'),('cipher selected by length','crypt.go encryptPacketData')],
 [('combine','partly received message','split.go combinePacket')],
 ['reader callbacks','size of datagrams given to the socket'])
p('C04','Concurrent writers never corrupt, lose or duplicate each other\'s messages',
 "When several goroutines, including reader and delivery callbacks, write to the same channel at the same time, each message whose write succeeded arrives exactly once and intact, and the messages of each writer arrive in the order that writer wrote them. This holds for messages that span several datagrams as well as for small ones.",
 [S,I,F],"every interleaving of concurrent writers with each other, with retransmission timers and with acknowledgements",
 "All tests write from one goroutine at a time.",
 ['channel.go','split.go','send_queue.go','tru_net.go'],
 [('packet numbers handed out under a lock','channel.go newID'),('send queue lock','send_queue.go'),('fragment sequence of one message','split.go')],
 [],['reader callbacks at the peer'])
p('C05','A delivery callback fires exactly once with a truthful verdict',
 "For each successful write with a delivery callback, that callback is called exactly once: with success only if the peer acknowledged the message, no later than its timeout, or else with an error when its timeout (5 s by default) has passed. A message acknowledged before its timeout is reported as success, and no write that returned an error ever triggers a callback.",
 [S,H,F],"every relative timing of acknowledgement, retransmission, timeout, close and crash",
 "The one delivery test ends before the default timeout can fire a second time and never races the timeout with the acknowledgement.",
 ['packet.go','tru.go','channel.go'],
 [('timeout timer armed at write, stopped by acknowledgement','packet.go SetDelivery; tru.go serve (statusAck)')],
 [('deliveryTimer','pending timeout','packet.go Packet')],
 ['PacketDeliveryFunc invocations'])
p('C06','A success report means the peer holds the whole message',
 "Once the delivery callbacks of a message and of all earlier messages on the channel have reported success, the peer's application receives that message completely even if the sender crashes or is cut off at that very moment. This includes messages sent as several fragments.",
 [K,S,F,I],"sender crash or permanent partition at the instant of any success report, any loss and reordering pattern before it",
 "No test crashes a sender or loses a fragment; the callback is only observed on loopback.",
 ['channel.go','tru.go','split.go'],
 [('acknowledgement sent only after the packet is accepted','tru.go serve (statusData)'),('which acknowledgements complete a message','channel.go writeTo; tru.go serve (statusAck)')],
 [],['PacketDeliveryFunc invocations','reader callbacks at the peer'])
p('C07','Connect is bounded and all-or-nothing',
 "Connect returns within its 5 s timeout (plus scheduling slack) for any network behaviour. If it returns no error, both sides share a session and messages flow intact in both directions, including the very first ones sent by either side; if it returns an error, the caller is left with no channel from that attempt and the peer's half-open channel is gone within the inactivity limit.",
 [S,F,H],"every loss, duplication, delay and reordering of handshake datagrams; concurrent connects from and to several nodes; crash of either side during the handshake",
 "Tests connect once over a lossless loopback and only look at the returned error.",
 ['connect.go','channel.go','crypt.go','tru_net.go'],
 [('three-way key exchange matched by connection id','connect.go serve'),('wait with timeout','connect.go Connect, wait'),('reader registration','connect.go Connect')],
 [('connects','attempts waiting for an answer','connect.go connect')],
 ['Connect result','ForEachChannel / Statistic','reader callbacks'])
p('C08','Duplicate, late or stray handshake datagrams do no harm',
 "Once a channel is established, handshake datagrams that the network duplicates or delivers late, and handshake answers that belong to no pending connect, neither end, replace nor re-key it, nor lose or corrupt a message, nor crash either node. During the handshake, duplicates never produce a second channel or mismatched session keys.",
 [F,S,H],"each handshake datagram duplicated any number of times with any delay, delivered before, during and after establishment, at either side",
 "Loopback never duplicates datagrams.",
 ['connect.go','tru.go','channel.go'],
 [('handshake handling for existing channels','tru.go serve; connect.go serve')],
 [('channels','live channel per peer address','tru.go Tru'),('sessionKey','current session key','crypt.go')],
 ['Channel.Destroyed','reader callbacks (ErrChannelDestroyed, data)'])
p('C09','A dead or unreachable peer is detected in bounded time',
 "If nothing from the peer reaches a node any more (crash, partition, one-way loss), the node ends that channel and reports it to its readers within the inactivity limit of 6 s plus a small slack, whatever the channel was doing. A peer that is heard but never acknowledges is given up after the retransmission limit.",
 [K,F,S],"crash or partition at every point of a channel's life, including mid-handshake, mid-message and while idle; one-way and two-way partitions; stalls",
 "No test stops a peer without closing it and waits.",
 ['statistic.go','channel.go','send_queue.go'],
 [('activity timer','statistic.go checkActivity'),('retransmission limit','send_queue.go retransmit')],
 [('lastActivity','time of last datagram from the peer','statistic.go')],
 ['ErrChannelDestroyed to readers','Channel.Destroyed','Tru.Statistic'])
p('C10','A channel whose peer is alive and heard is never dropped',
 "A channel is not ended by the library while datagrams from its peer keep arriving, nor while it is idle on a working network for any length of time, nor because of short outages, losses, stalls or wall-clock jumps well below the inactivity limit.",
 [S,F,H],"hours of idleness, bursts of loss and outages of up to one second, wall-clock jumps in both directions, slow nodes, traffic in one direction only",
 "No test keeps a channel for longer than two seconds or disturbs clock or network.",
 ['statistic.go','channel.go','tru.go'],
 [('ping/pong keep-alive','statistic.go checkActivity; channel.go newChannel; tru.go serve')],
 [('lastActivity','time of last datagram from the peer','statistic.go')],
 ['ErrChannelDestroyed to readers','Channel.Destroyed'])
p('C11','The end of a channel is reported once and is final',
 "When a channel ends, for whatever reason and however many reasons coincide, each registered reader is told exactly once with the channel-destroyed error. From then on Destroyed reports true, the channel is no longer listed, writes fail, no message is delivered on it, and it sends nothing more and keeps no timer running; a closing side's peer learns of it at once if the network delivers.",
 [S,H,F],"every coincidence of local close, peer close, inactivity, retransmission exhaustion, reconnect and node close",
 "Tests close channels but never look at what is reported, how often, or what still runs afterwards.",
 ['channel.go','send_queue.go','statistic.go','speed.go','tru.go'],
 [('destroy','channel.go destroy, Close'),('self-re-arming timers','send_queue.go retransmit; statistic.go checkActivity; speed.go process')],
 [('destroyed','channel has ended','statistic.go')],
 ['reader callbacks','Channel.WriteTo error','datagrams on the wire','running timers'])
p('C12','Reconnecting gives a clean channel unaffected by its predecessor',
 "After a close, crash, restart or loss of a channel, the same peers can connect again from the same addresses, and the new channel is fully functional and lives on. Timers, pending packets, readers and callbacks of the predecessor never end, re-key, slow down or inject data into the new channel, even when the server still believed the old one alive.",
 [H,K,S,F],"any number of close / crash / restart / reconnect cycles at any point, with old channels on either side still present or timing out",
 "No test connects twice from the same address.",
 ['tru.go','connect.go','channel.go','statistic.go'],
 [('old channel replaced on a new connect','tru.go serve (statusConnect)'),('removal from the channel table','channel.go destroy')],
 [('channels','live channel per peer address','tru.go Tru')],
 ['Connect result','reader callbacks','Channel.Destroyed'])
p('C13','Channels of one node are isolated from each other',
 "Every message is delivered only on the channel of the peer that sent it and to no other. The loss, crash, close, flooding or misbehaviour of one peer, or a connection the application does not read from, never ends, blocks or corrupts the channels to other peers.",
 [S,H,F],"many peers on one node with independent faults, closes, crashes, connects and floods",
 "Every test uses one client and one server.",
 ['tru.go','channel.go','connect.go','tru_net.go'],
 [('channel table keyed by peer address','channel.go getChannel/newChannel'),('shared reader and sender goroutines','tru.go readerProccess/senderProccess')],
 [('channels','live channel per peer address','tru.go Tru'),('readerCh, senderCh','queues shared by all channels','tru.go Tru')],
 ['reader callbacks','Channel.Destroyed'])
p('C14','No datagram can crash, hang or feed a node without a channel',
 "Whatever datagrams arrive (empty, truncated, random, malformed handshake, unknown type, wrong length, spoofed at random, oversized) from any address in any order, the node neither crashes nor hangs, keeps serving its established channels, and hands no message to the application that does not come from an established channel. State created by bogus connects disappears again within the inactivity limit.",
 [I,S,H],"all datagram contents and orders, interleaved with legitimate traffic",
 "No test feeds a malformed datagram.",
 ['tru.go','connect.go','packet.go','crypt.go'],
 [('packet and handshake decoding','packet.go UnmarshalBinary; connect.go UnmarshalBinary'),('packets for unknown channels ignored','tru.go serve')],
 [],['process alive','reader callbacks','Tru.Statistic'])
p('C15','Message contents are secret on the wire and altered ones are rejected',
 "After a channel is established no message content appears in clear in any datagram, equal messages do not produce equal datagrams across packets, and only the holder of the session key can read them. A datagram carrying a message that was altered on the way is never delivered as a different message, nor acknowledged; the original still arrives by retransmission.",
 [I,F,H],"all messages; any alteration of any data datagram in flight (bit flips, truncation, extension, changed packet number)",
 "No test looks at the wire or alters a datagram.",
 ['crypt.go','tru.go','channel.go','connect.go'],
 [('per packet key derived from session key and packet number','crypt.go packetKey'),('AES-GCM above 64 bytes, XOR below','crypt.go encryptPacketData'),('RSA-OAEP key exchange','connect.go serve; crypt.go')],
 [('sessionKey','session key','crypt.go')],
 ['datagrams on the wire','reader callbacks'])
p('C16','net.Conn carries each write as one message to the peer\'s Read',
 "Over Dial, Listen and Accept, the bytes returned by successive Reads, with io.EOF marking the end of each message, are exactly the peer's successful Writes in order, for any read buffer size, starting with the first byte either side sends and without losing messages the application is slow to read. Each accepted connection is a distinct established peer and is returned by Accept exactly once.",
 [S,I,F],"every interleaving of dial, accept, first writes, slow readers, message sizes and read-buffer sizes, under network faults",
 "No test uses Dial, Listen, Accept or Conn at all.",
 ['tru_net.go','connect.go','channel.go','tru.go'],
 [('Conn.reader, Conn.Read','tru_net.go'),('connected, Accept','tru_net.go'),('reader registered on the channel','tru_net.go; connect.go')],
 [('connRead','bytes received and not yet read','tru_net.go')],
 ['Conn.Read/Write results'])
p('C17','Closing a net.Conn or Listener is safe and unblocks its users',
 "Close on a connection, from any number of goroutines and concurrently with Read, Write, arriving data and the peer's own close, never panics or blocks, and every blocked or later Read and Write on either end returns an error in bounded time. Closing a listener makes blocked and later Accepts return an error.",
 [S,H,F],"every interleaving of Close with Read, Write, Accept, incoming data, peer close and inactivity",
 "No test uses Conn or Listener.",
 ['tru_net.go','channel.go'],
 [('Conn.Close, Conn.reader','tru_net.go'),('Trunet.Close, Accept','tru_net.go')],
 [],['results of Read, Write, Accept, Close','process alive'])
p('C18','Closing a node ends everything it started',
 "After Tru.Close returns, every channel has ended and each of its peers has been told once (if the network delivers, they end at once), the reader got the closed error, and the UDP port can be bound again. Shortly afterwards the node sends no datagram, calls no message or connect callback, and has no goroutine or timer left.",
 [S,H,F],"Close at any moment: idle, under traffic, during handshakes, with timers firing and channels ending at the same time",
 "Tests call Close in defers and exit.",
 ['tru.go','channel.go','statistic.go','send_queue.go'],
 [('Close','tru.go Close, stopListen'),('ForEachChannel','channel.go'),('reader and sender goroutines','tru.go')],
 [('channels','live channels','tru.go Tru')],
 ['callbacks','datagrams on the wire','live goroutines and timers','binding the port again'])
p('C19','The API can be used from any callback and goroutine without deadlock',
 "Any public operation (write, close, connect, statistics, iteration over channels, punch) may be called from any goroutine and from message, connect and punch callbacks, in any combination, and returns in bounded time; the node keeps serving all its peers.",
 [S,H],"all combinations and interleavings of API calls from callbacks and goroutines, with traffic and timers running",
 "Tests only write from a reader callback; no test calls another operation from a callback or concurrently.",
 ['tru.go','channel.go','statistic.go','send_queue.go','connect.go'],
 [('lock order of node, channel statistics and send queue locks','channel.go; statistic.go; send_queue.go'),('connect callback','channel.go newChannel; connect.go')],
 [],['return of every API call','progress of other channels'])
p('C20','Statistics agree with what happened',
 "At any quiet moment a channel's counters equal its history: messages sent, messages delivered, duplicates dropped, acknowledgements received (useful and surplus), retransmissions, and queue lengths, which are zero once everything is delivered. Speeds fall to zero when traffic stops, trip time is never negative nor longer than the slowest round trip, and taking statistics at any time neither blocks nor disturbs traffic.",
 [H,S,F],"every history of sends, losses, duplicates and retransmissions; statistics taken concurrently at any time",
 "Tests print the statistics and check one drop counter in a hand-made sequence.",
 ['statistic.go','speed.go','channel.go','tru.go'],
 [('counters','statistic.go; tru.go serve; channel.go writeTo'),('speed window','speed.go'),('trip time','channel.go setTripTime')],
 [('statistic','counters of a channel','statistic.go')],
 ['Tru.Statistic','Channel.Triptime','datagrams on the wire'])
p('C21','Punch datagrams reach the punch callback unchanged and touch nothing else',
 "Each punch datagram the network delivers is handed to the punch callback exactly once with the sender's address and the identical bytes, whether or not a channel to that address exists; none is retransmitted, acknowledged or delivered as a message. Punches never create, end or disturb a channel.",
 [S,I,F],"punches before, during and after connects, from known and unknown addresses, under loss, duplication and reordering",
 "No test sends a punch.",
 ['tru.go','channel.go'],
 [('statusPunch handling','tru.go serve'),('WriteToPunch','channel.go')],
 [],['PunchFunc invocations','Channel.Destroyed','datagrams on the wire'])
p('C22','Concurrent use of the public API is free of data races',
 "Using nodes, channels and connections from several goroutines at the same time, together with the node's own timers and receive path, involves no two conflicting memory accesses that are not ordered by synchronisation. In particular no concurrent map access, which the Go runtime answers by killing the process.",
 [S,H],"all interleavings of concurrent writes, reads, closes, connects, statistics, iteration, timers and incoming datagrams",
 "The tests are not run with the race detector, use one writer, and reach one schedule.",
 ['tru.go','channel.go','statistic.go','send_queue.go','receive_queue.go','packet.go','connect.go','tru_net.go'],
 [('node lock, channel statistics lock, queue locks, packet lock','tru.go; statistic.go; send_queue.go; receive_queue.go; packet.go')],
 [],['happens-before relation of memory accesses'])
p('C23','Each key press runs its hotkey action exactly once and Stop ends the menu',
 "While a hotkey menu runs, every key press is consumed once, in order: a pending next-key action runs for exactly the next key, then the action registered for the key (or the unknown-key action) runs once. After Stop, from an action or another goroutine, stop actions have run and at most one more key is consumed; the menu can be run again.",
 [S,H],"all key sequences and interleavings of Stop, NextKeyAction and Run with key presses",
 "The hotkey package has no tests.",
 ['hotkey/hotkey.go','hotkey.go'],
 [('run loop','hotkey/hotkey.go run'),('Stop','hotkey/hotkey.go Stop')],
 [],['actions run'])
p('C24','A log record is written exactly when level and filter admit it',
 "A record logged at a level is written exactly when that level is at or above the configured threshold and, if a filter is set, the record contains one of its alternatives. Level names parse and print consistently.",
 [I,C],"all levels, filters and records",
 "TestTeolog asserts nothing.",
 ['teolog/teolog.go'],
 [('SetLevel, writer.Write','teolog/teolog.go')],
 [],['standard output'])
p('C25','Reading a key leaves the terminal as it was',
 "After a key has been read, successfully or not, the terminal settings are exactly what they were before.",
 [I,F],"all terminal states and read outcomes",
 "The examples in term are compiled but never run.",
 ['term/term.go','term/term_unix.go'],
 [('Getch restores the saved state','term/term.go Getch')],
 [],['termios of the controlling terminal'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
