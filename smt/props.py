#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and smt/meta.json (run after editing)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, bounds='', assumptions=(), reach=None, na=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                  bounds=bounds, assumptions=list(assumptions), reach=reach or {}, na=na, note=note))

prop('C01', 'Messages are handled once each, in order, and stopping drains what was queued',
 'Every message an actor accepts is handled exactly once, and messages from one sender are handled in the order they were accepted, whichever ways of sending are mixed. A graceful stop, or dropping the last strong reference, lets everything accepted before it be handled and then stops the actor normally; nothing accepted after a graceful stop is handled. Senders never hang on an actor that is stopping.',
 'schedules inputs histories', 'every interleaving of sender tasks and the actor within the bound, every payload, every mix of sending methods, bounded and unbounded mailboxes',
 'Tests run one schedule with one sender; the order of arrival, of the stop and of reference drops is a matter of interleaving.',
 'src/actor/spawn.rs src/actor/kind.rs src/mailbox.rs src/request/tell.rs src/request/ask.rs',
 [('actor loop drains the mailbox', 'src/actor/spawn.rs:abortable_actor_loop'), ('weak self reference while running', 'src/actor/spawn.rs:run_actor_lifecycle'), ('stop signal travels in the mailbox', 'src/actor/actor_ref.rs:stop_gracefully')],
 'two sender tasks of 2 (thorough 3) messages with 6 (9) symbolic scheduling decisions; 3 (4) mixed sends; up to 2 messages before and after a stop; mailbox capacities unbounded, 1, 2, 3; payloads are arbitrary 64-bit values; an actor and two senders on threads of their own, 1 (2) preemptions; histories of 40 (300-600) messages with arbitrary payloads')
prop('C02', 'The lifecycle hooks run once each, in order, on every path',
 'An actor runs its start hook first and once, handles no message before that has finished, and runs its stop hook exactly once and last, whatever made it stop and whatever any hook returned or panicked with. A failure is given to the panic hook exactly once and that hook decides whether and why the actor stops. The reason given to the stop hook is the reason the actor finishes with, and failures of the start and stop hooks reach the global error hook once each.',
 'schedules fault_sequences configurations', 'every combination of outcomes (success, error, panic, suspension) of the start, panic and stop hooks and of a message, every cause of stopping, and the interleavings within the bound',
 'Tests exercise only successful hooks plus one failing start; combinations of failing hooks and stop causes are never reached.',
 'src/actor/spawn.rs src/actor/kind.rs src/actor.rs src/error.rs',
 [('lifecycle sequence', 'src/actor/spawn.rs:run_actor_lifecycle'), ('panic and link-death dispatch', 'src/actor/kind.rs:ActorBehaviour'), ('error hook', 'src/error.rs:invoke_actor_error_hook')],
 '4 start outcomes x 4 panic policies x 4 stop outcomes x 4 messages x 3 causes of stopping x 2 mailboxes, 3 (thorough 6) symbolic scheduling decisions')
prop('C03', 'Panics and errors stay inside the actor and reach the right party once',
 'A panicking handler never unwinds into the runtime, its sender or another actor: the panic hook sees it once, and a caller awaiting a reply gets an error instead of hanging. An error reply goes to the caller that asked and not to the panic hook; the same error from a message nobody awaits goes to the panic hook. Messages delivered through a customised message hook obey the same rules.',
 'inputs schedules fault_sequences', 'every sequence of replies, errors, panics (before or after suspending, with any payload kind) sent by tell or ask, under every panic policy',
 'Tests cover a single panic with the default policy.',
 'src/actor/kind.rs src/message.rs src/reply.rs src/error.rs src/actor.rs',
 [('panic catching', 'src/actor/kind.rs:handle_message'), ('reply or error routing', 'src/message.rs:handle_dyn'), ('message hook', 'src/actor.rs:on_message')],
 'sequences of 2 (thorough 3) messages of 6 kinds, tell or ask, 4 policies, 2 (4) symbolic scheduling decisions; an actor and two callers on threads, 1 (2) preemptions; 9 (40-80) failing messages in turn')
prop('C04', 'Startup buffering keeps every message, with those sent by the start hook first',
 'Messages that an actor sends to itself while starting are handled before any message others sent meanwhile, and the others keep their order. Nothing accepted during startup is lost, duplicated or reordered, also when the mailbox is full, when a stop is queued behind them, or when handling one of them panics and the actor carries on.',
 'schedules inputs configurations', 'every interleaving of senders with a slow start hook within the bound, every number of self-sent and other messages, full and unbounded mailboxes',
 'Tests send to already started actors; the window between spawning and startup completing is never sampled.',
 'src/actor/kind.rs src/actor/spawn.rs src/mailbox.rs',
 [('startup buffer', 'src/actor/kind.rs:handle_startup_finished'), ('sent-within-actor flag', 'src/actor/actor_ref.rs:is_current'), ('startup notification signal', 'src/actor/spawn.rs:run_actor_lifecycle')],
 'up to 2 self-sent and 2 other messages, an optional stop, capacities unbounded, 1, 2, 4; 3-5 symbolic scheduling decisions; an actor and a sender on threads, 2 (3) preemptions; 9 (40-80) messages meeting up to 20 of the actor\'s own')
prop('C05', 'Waiting for startup ends exactly when the start hook has ended',
 'Everyone waiting for an actor to start, by any of the ways to wait and however early or late, continues once the start hook has finished and not before, also when it fails or the actor dies while starting. The startup result that they get is the outcome of the start hook.',
 'schedules fault_sequences', 'every interleaving of waiters and the actor within the bound, every outcome of the start hook, killed or not',
 'The existing tests wait on one actor whose start hook succeeds.',
 'src/actor/actor_ref.rs src/actor/spawn.rs src/mailbox.rs',
 [('startup barrier', 'src/actor/actor_ref.rs:wait_for_startup'), ('startup completion', 'src/actor/spawn.rs:run_actor_lifecycle')],
 '2 waiters (3 ways of waiting), 4 start outcomes, optional gate inside the start hook, capacities unbounded and 1; 3-5 (thorough up to 7) symbolic scheduling decisions; an actor, a waiter and a killer on threads, 1 (2) preemptions; 9 (40-80) waiters of each kind',
 ['result of a start hook that panicked is a known finding (c05_result_panic); a prepared actor dropped without ever running is a known finding (c05_unrun)'], reach={'c05_result_panic': [], 'c05_unrun': []})
prop('C06', 'Waiting for shutdown ends exactly when the stop hook has ended',
 'Everyone waiting for an actor to shut down continues once its stop hook has finished and not before, for every cause of stopping and however late they start waiting; from then on the actor is not alive and refuses messages. Waiting does not itself stop the actor, the shutdown result is the outcome of the stop hook, and an actor may stop and await another from its own stop hook.',
 'schedules fault_sequences', 'every interleaving of waiters, stoppers and the actor within the bound, every outcome of the stop hook, every cause of stopping',
 'Existing tests wait on one gracefully stopped actor.',
 'src/actor/actor_ref.rs src/actor/spawn.rs',
 [('mailbox closes after the stop hook', 'src/actor/spawn.rs:run_actor_lifecycle'), ('wait on closed mailbox', 'src/actor/actor_ref.rs:wait_for_shutdown')],
 '2 waiters (3 ways of waiting), 4 stop outcomes, 3 causes of stopping plus failed start, optional gate inside the stop hook, 4-8 symbolic scheduling decisions; an actor, a waiter and a stopper on threads, 1 (2) preemptions; 9 (40-80) waiters',
 ['result of a stop hook that panicked is a known finding (c06_result_panic)'], reach={'c06_result_panic': []})
prop('C07', 'An ask has exactly one outcome, and the right one',
 'Asking an actor always completes, with exactly one outcome: the reply of the handler run for this very message, the error that handler returned, the reason it could not be delivered (and then the handler never ran for it), a timeout, or that the actor stopped. A success is reported only if the handler finished; no schedule, kill, stop or abandoned caller makes another caller hang or receive a reply that is not its own.',
 'schedules inputs fault_sequences', 'every interleaving of callers, the actor and a stop or kill within the bound, every handler outcome, every way of asking, abandoned callers',
 'Tests ask a live, idle actor.',
 'src/request/ask.rs src/reply.rs src/message.rs src/actor/kind.rs',
 [('one-shot reply channel', 'src/request/ask.rs:AskRequest'), ('reply sender dropped with the message', 'src/reply.rs:ReplySender'), ('pending replies', 'src/request/ask.rs:PendingReply')],
 'two callers with 4 ways of asking (plus abandoned pending replies), 5 handler outcomes, 3 endings, 4 (thorough 6) symbolic scheduling decisions; an actor, a caller and a stopper on threads, 1 (2) preemptions; 9 (40-80) concurrent asks')
prop('C08', 'A message that cannot be delivered comes back unchanged',
 'When a send fails because the actor has stopped, its mailbox is full or a mailbox timeout passed, the error names that cause and contains the very message that was sent, for every way of sending; the handler never runs for it. Sending to a stopped actor never panics or hangs, and the non-waiting sends report a full mailbox exactly when it is full.',
 'inputs configurations schedules', 'every way of sending, bounded and unbounded mailboxes, stopped, full and never-run actors, every payload',
 'Only a few of the ways of sending are tested, each in one state.',
 'src/request/tell.rs src/request/ask.rs src/actor/actor_ref.rs src/error.rs src/mailbox.rs',
 [('error conversion', 'src/error.rs:SendError'), ('downcast of the returned signal', 'src/mailbox.rs:downcast_message')],
 '12 ways of sending x stopped/full/dropped x capacities unbounded, 1, 2; payloads arbitrary 64-bit values; an actor, a sender and a killer on threads, 1 (2) preemptions; every way of sending with a timeout, with the actor stopping before it')
prop('C09', 'Bounded mailboxes apply backpressure and timeouts fire when they should',
 'A bounded mailbox never holds more than its capacity: a waiting sender continues as soon as there is room, in the order senders arrived, and not before. A mailbox timeout fails the send if and only if there was no room for that long, and a reply timeout fails the ask if and only if the reply took longer; a timed out send is not delivered, a timed out ask does not disturb the actor.',
 'schedules configurations inputs', 'every capacity, number of senders, timeout and handler duration within the bound, in virtual time',
 'Tests use real time with two fixed durations.',
 'src/mailbox.rs src/request/tell.rs src/request/ask.rs',
 [('bounded channel', 'src/mailbox.rs:bounded'), ('timeouts', 'src/request/ask.rs:send'), ('send_timeout', 'src/request/tell.rs:send')],
 'capacities 1-2, up to 3 senders, timeouts and durations from small sets around the boundary in virtual time; an actor with capacity 1 and two waiting senders on threads, 1 (2) preemptions; both timeouts of an ask combined; 9 (40-80) senders waiting at once; the default mailbox of 64')
prop('C10', 'Linked actors learn of each death exactly once, with its reason',
 'When an actor stops, for whatever reason and also while starting, every actor linked to it at that time gets exactly one notification carrying its identity and stop reason, and actors that were never linked or were unlinked get none. Notifications are delivered even when mailboxes are full or several linked actors die at the same time, and by the time one is delivered the dead actor no longer accepts messages.',
 'schedules histories fault_sequences', 'every interleaving of linking, unlinking, stopping and killing within the bound, every stop reason, full mailboxes',
 'Tests do not cover links.',
 'src/actor/actor_ref.rs src/actor/spawn.rs src/mailbox.rs src/actor/kind.rs',
 [('link registry', 'src/actor/actor_ref.rs:link'), ('notification on stop', 'src/actor/spawn.rs:run_actor_lifecycle'), ('link-died signal', 'src/mailbox.rs:SignalMailbox')],
 'up to 3 actors, operations link/unlink in symbolic order, 4 stop causes, 4 (thorough 6) symbolic scheduling decisions; two linked actors on threads, 2 (3) preemptions; 9 (40-80) linked actors')
prop('C11', 'The default link policy propagates failures and ignores normal ends',
 'With the default policy an actor linked to one that ended normally carries on, and one linked to an actor that was killed, panicked or itself died of a link stops with a reason naming the dead actor and nesting its reason; failures propagate along chains and cycles of links and every actor involved stops exactly once. A customised policy decides instead, and a panicking or failing policy is contained.',
 'schedules configurations fault_sequences', 'every stop cause, chains and cycles of up to 3 actors, every policy outcome, interleavings within the bound',
 'Tests do not cover links.',
 'src/actor.rs src/actor/kind.rs src/actor/spawn.rs src/error.rs',
 [('default policy', 'src/actor.rs:on_link_died'), ('link-death handling', 'src/actor/kind.rs:handle_link_died')],
 '3 actors in a chain or cycle, 4 stop causes, 5 policies, 3 (thorough 6) symbolic scheduling decisions; a chain or cycle of 3 actors on threads, 1 preemption; chains of 9 (40-80) linked actors')
prop('C12', 'Linking is symmetric, idempotent and never deadlocks',
 'Linking two actors has the same effect whichever one initiates it and however often it is repeated; one unlink from either side removes it, and linking an actor to itself does nothing. Concurrent links and unlinks of the same actors from both sides, with each other and with the actors stopping, always complete.',
 'schedules histories', 'every sequence of link and unlink calls from either side, and every point at which the two lock acquisitions of concurrent calls can be interrupted, within the bound',
 'Tests do not cover links; the interleaving needs the scheduler to suspend a task between two lock acquisitions.',
 'src/actor/actor_ref.rs src/actor/spawn.rs', [('ordered locking', 'src/actor/actor_ref.rs:link'), ('link map', 'src/actor/actor_ref.rs:links')],
 'sequences of 3 (thorough 4) operations; two concurrent operations with every cooperative-budget interruption point of either; two concurrent operations, or an operation and a dying actor, on threads, 1 (2) preemptions; links to 9 (40-80) actors')
prop('C13', 'References count correctly: weak ones never keep an actor alive, strong ones do',
 'An actor runs while any strong reference to it exists and stops normally, once drained, when the last one goes; weak references never keep it alive, and the self-references handed to every hook but the start hook are weak. Upgrading a weak reference works exactly while the actor has strong references, the counts reported are exact, recipients behave like the references they came from, and identity and equality of references follow the actor.',
 'histories schedules', 'every sequence of cloning, downgrading, upgrading, converting and dropping references within the bound, before, during and after the run',
 'Tests check a few fixed histories.',
 'src/actor/actor_ref.rs src/mailbox.rs src/actor/spawn.rs', [('strong and weak senders', 'src/mailbox.rs:MailboxSender'), ('upgrade/downgrade', 'src/actor/actor_ref.rs:WeakActorRef'), ('recipients', 'src/actor/actor_ref.rs:Recipient')],
 'sequences of 3 (thorough 4) of 8 reference operations over references, weak references and recipients with the run starting anywhere among them, both mailbox kinds; races of upgrading and dropping with 6 (9) symbolic scheduling decisions; an actor, an upgrade and the last drop on threads, 1 (2) preemptions; links, lookups and recipients kept by actors; 9 (40-80) references of each kind')
prop('C14', 'Kill stops an actor at any point, promptly and cleanly',
 'Killing an actor, at any point of its life, stops it: a handler that is suspended is abandoned, queued messages are not handled, the stop hook runs once with a reason that says it was killed, and callers get an error instead of hanging. Killing an actor that has stopped, or killing twice, has no effect.',
 'schedules crash_points', 'a kill before the actor runs, during startup, between or inside handlers at every suspension point, during the stop hook, and after it stopped',
 'One test kills an actor at one point.',
 'src/actor/spawn.rs src/actor/actor_ref.rs', [('abort handle', 'src/actor/actor_ref.rs:kill'), ('abortable loop', 'src/actor/spawn.rs:abortable_actor_loop')],
 'a kill before each of the first 9 (thorough 15) steps of a run of up to 3 messages with suspensions in every hook, 2 (5) symbolic scheduling decisions; kills inside suspended hooks and from handlers; an actor, a caller and a killer on threads, 1-2 (2-3) preemptions')
prop('C15', 'Actor identities round-trip through bytes and are unique and hashable',
 'Converting an actor identity to bytes or serialising it and reading it back gives an equal identity; bytes that are too short are rejected with an error and never panic. Generated identities are pairwise different, and equality and hashing agree with each other.',
 'inputs', 'every 64-bit sequence number, every byte string up to 10 bytes, every pair of identities',
 'Tests round-trip a handful of values.',
 'src/actor/id.rs', [('byte codec', 'src/actor/id.rs:to_bytes'), ('parsing', 'src/actor/id.rs:from_bytes'), ('generation', 'src/actor/id.rs:generate')],
 'byte strings of length 0-11 (thorough 0-16), all 64-bit values, MessagePack and JSON values; 3 (4) identities generated in any of 3 ways; two threads creating two actors each, 2 (4) preemptions')
prop('C16', 'The registry maps each name to at most one actor of one type',
 'Looking up a name gives the actor last registered under it, or nothing, and an error if it is of another actor type. Registering a taken name replaces the actor and reports that the name was taken, removing reports whether the name was there, and no operation on one name affects another. A registered actor stays alive until its name is removed or replaced. Every sequence of operations agrees with a map from names to actors.',
 'histories inputs', 'every sequence of registry operations within the bound over names, actors and actor types',
 'Tests register and look up one name.',
 'src/registry.rs src/actor/actor_ref.rs', [('registry map', 'src/registry.rs:ActorRegistry'), ('typed lookup', 'src/registry.rs:get')],
 'sequences of 3 (thorough 4) operations over 2 (3) names, 3 actors and 2 actor types; two threads registering, removing and looking up, 1 (2) preemptions; 9 (40-80) names; replacing a name while another thread looks it up, 2 (3) preemptions')
prop('C17', 'Send errors convert without losing their cause or their contents',
 'Mapping, flattening, boxing, downcasting and unwrapping a send error keep its cause and exactly its message or handler error: mapping changes only the part mapped, boxing followed by downcasting to the same types gives the original, downcasting to other types gives the boxed error back intact, and flattening merges nested errors by their cause.',
 'inputs', 'every variant with every payload, every conversion and composition of two conversions',
 'Tests check two conversions.',
 'src/error.rs', [('conversions', 'src/error.rs:SendError'), ('boxed errors', 'src/error.rs:try_downcast')],
 'every variant, arbitrary 64-bit payloads, all conversions and round trips')
prop('C18', 'Panic and stop reasons keep the value they were made from',
 'The error or panic payload an actor failed with can be read back, exactly, from what its hooks and links receive: an error value of the right type downcasts to an equal value, a wrong type gives nothing and leaves it intact, a panic message reads as its text, and any other panic payload is kept. This holds for clones, for values received through links, and after any number of reads, also after a reader panicked; a stop reason that is serialised keeps its kind, the identities in it and the message.',
 'inputs', 'every payload value and kind (error, owned or static string, other values), every read in any order',
 'No test reads a panic value back.',
 'src/error.rs src/reply.rs', [('panic error', 'src/error.rs:PanicError'), ('reply error downcast', 'src/reply.rs:ReplyError')],
 'payloads: arbitrary 64-bit codes, owned and static strings, unit, arbitrary panic payloads; 2 (thorough 3) reads out of 8 ways in any order through either clone; link reasons nested up to 2; three threads reading, 2 (3) preemptions')
prop('C19', 'Delegated and immediate replies reach exactly the caller they belong to',
 'A handler that takes its reply sender may answer later, from anywhere, or never: the caller gets exactly that answer, or an error if the sender is dropped, and meanwhile the actor handles other messages. A handler told without a caller gets no reply sender; replying immediately through the context equals returning the value, and replies of every supported kind arrive unchanged.',
 'schedules inputs', 'every order of answering delegated replies with respect to other messages, ask and tell, every reply kind',
 'Doc examples only.',
 'src/message.rs src/reply.rs src/actor/kind.rs', [('delegated replies', 'src/reply.rs:DelegatedReply'), ('context', 'src/message.rs:Context'), ('reply trait', 'src/reply.rs:Reply')],
 '2 delegated requests answered in any order, dropped or failed, with the actor running, stopped or killed; ask or tell; 17 reply kinds; 3 (thorough 5) symbolic scheduling decisions; an actor, a caller and an answering thread, 1 (2) preemptions')
prop('C20', 'Forwarding a message behaves as if the caller had asked the target itself',
 'A forwarded message is handled once by the target and its reply goes to the original caller, who gets what asking the target directly would have given; a forwarded message without a caller is a plain send. If the target is stopped or full, the forwarder gets the error with the message and the caller still gets an answer.',
 'schedules configurations inputs', 'every way of forwarding, with and without caller, every state of the target, chains of two forwards',
 'One doc example with a live target.',
 'src/message.rs src/request/ask.rs src/reply.rs', [('forward', 'src/message.rs:forward'), ('forwarded reply', 'src/reply.rs:ForwardedReply')],
 '3 ways of forwarding, ask and tell, target running/stopped/full, 4 handler outcomes, forwarder killed or stopped at any of 5 steps, chains of 2; 3 (thorough 5) symbolic scheduling decisions; forwarder, target and caller on threads, 1 preemption')
prop('C21', 'An attached stream is delivered completely, in order, between its markers',
 'Attaching a stream to an actor delivers one started marker, then every item in order, then one finished marker, and gives the stream back when it ends. Once the actor stops, delivery ends, nothing more is taken from the stream, and either the stream or the item that could not be delivered is given back. Several streams attached to one actor do not disturb each other, and cancelling one ends it alone.',
 'schedules inputs', 'every stream of items within the bound with suspensions at any item, the actor stopping at any point, slow and full mailboxes',
 'One doc example.',
 'src/actor/actor_ref.rs src/message.rs', [('stream pump', 'src/actor/actor_ref.rs:attach_stream'), ('stream messages', 'src/message.rs:StreamMessage')],
 'streams of up to 2 (thorough 3) items with symbolic suspensions; the actor stopping, killed or panicking at any of 6 messages or while the stream is idle before any of 3 items; two streams; capacities unbounded, 1; an actor and a stream on threads, 1 preemption; streams of 40 (200-400) items')
prop('C22', 'A worker pool delivers every task to one live worker and every broadcast to all',
 'Each dispatched task is handled by exactly one worker, one with the fewest unfinished tasks, or its caller gets an error; replies and handler errors come back to the caller. A worker that fails a task is replaced, a stopped one is found by the first task it would have got and receives no more while others are alive, the pool keeps its size and survives failing tasks, and a broadcast reaches every worker once.',
 'schedules fault_sequences configurations', 'every sequence of tasks, failures and worker deaths within the bound, pool sizes and mailbox capacities',
 'Tests use a healthy pool.',
 'actors/src/pool.rs', [('worker selection', 'actors/src/pool.rs:next_worker'), ('replacement', 'actors/src/pool.rs:on_link_died'), ('broadcast', 'actors/src/pool.rs:Broadcast')],
 'pools of 1-2 workers made by sync or async factories; 3 (thorough 4) operations; 6 (thorough 7) dispatches and completions on 2 (thorough 2-3) workers, unequally loaded at one of 4 points; up to 4 tasks in flight when a worker dies at any of 7 points; up to 8 tasks on mailboxes of 1-2; up to 3 workers dying while 12 tasks and a broadcast wait for them; pools of 9 (16-40) workers')
prop('C23', 'Publish-subscribe delivers every message to exactly the interested subscribers',
 'Publishing delivers one copy of the message to every current subscriber whose filter accepts it and to nobody else, each subscriber seeing publications in order. Subscribing again replaces the earlier subscription and is not two deliveries, a filter sees every publication once, stopped subscribers get nothing, and one that is stopped or slow does not keep the others from their copy.',
 'histories configurations inputs', 'every sequence of subscribe, filter, publish and subscriber death within the bound, every message and filter outcome, slow subscribers',
 'Tests do not cover deaths, strategies or filters together.',
 'actors/src/pubsub.rs', [('publish', 'actors/src/pubsub.rs:publish'), ('subscribe', 'actors/src/pubsub.rs:subscribe_filter')],
 '2 subscribers, 3 (thorough 4) operations, standalone or as an actor, symbolic 64-bit messages and filter threshold; 2 publications to 4 subscribers with any one of them stuck; 9 (20-60) subscribers')
prop('C24', 'The broker delivers a topic to exactly the matching subscriptions',
 'Publishing to a topic delivers one copy per subscription whose pattern matches it (case matters, and one star stays within one level) and none otherwise, waiting for slow subscribers, skipping them or giving up on them as the delivery strategy says; cancelling a subscription removes exactly that one, by pattern or altogether, and subscribers that have stopped are dropped without affecting the rest.',
 'histories configurations inputs', 'every sequence of subscribe, unsubscribe, publish and subscriber death within the bound over patterns and topics',
 'Tests cover no unsubscribing or deaths.',
 'actors/src/broker.rs actors/src/lib.rs', [('topic matching', 'actors/src/broker.rs:publish'), ('unsubscribe', 'actors/src/broker.rs:unsubscribe')],
 '2 subscribers, 2 patterns, 3 topics, 5 delivery strategies, 2 (thorough 3) operations from 5 tables of subscriptions, then 2 publications; 9 patterns against every topic of up to 3 (thorough 4) of the characters a / A .; a stuck subscriber freed or killed before or after the timeout; 9 (20-60) subscriptions')
prop('C25', 'The message bus delivers by type to exactly the registered actors',
 'Publishing a value delivers one copy to every actor currently registered for its type, and to no other; registering for one type does not affect another, removal takes effect at once, and stopped actors do not keep others from their messages.',
 'histories configurations inputs', 'every sequence of register, unregister, publish and actor death within the bound over two message types',
 'Tests cover one type and live actors.',
 'actors/src/message_bus.rs actors/src/lib.rs', [('type map', 'actors/src/message_bus.rs:MessageBus'), ('publish', 'actors/src/message_bus.rs:publish')],
 '2 actors, 2 message types, 5 delivery strategies, 2 (thorough 3) operations from 5 tables of registrations, then 2 publications; a stuck actor freed or killed before or after the timeout; 9 (20-60) registrations')
prop('C29', 'The mailbox handles agree with each other about one queue',
 'All handles of one mailbox describe one queue: what is sent is received once and in order by any way of receiving, senders of the same mailbox and only those compare as the same, counts and emptiness are exact, and closing it stops sends at once while what was queued can still be received. Bounded and unbounded mailboxes differ only in capacity.',
 'histories inputs', 'every sequence of mailbox operations within the bound on both kinds of mailbox, every limit for batched receives',
 'Mailboxes have no direct tests.',
 'src/mailbox.rs', [('delegation to channels', 'src/mailbox.rs:MailboxSender'), ('receiver', 'src/mailbox.rs:MailboxReceiver')],
 'sequences of 2 (thorough 3) operations from every filling of mailboxes of capacity 1, 2 or unbounded, batch limits 0-3; 3 tasks waiting while the receiver goes, 3 senders and a waiting receiver; three threads with senders of one mailbox, 1 (2) preemptions; 9 (40-80) signals in batches of up to 100')

ENV = ('the network is an environment made of arbitrary answers and events: libp2p itself (transport, encryption, discovery, the record store) is not executed, '
       'requests and responses are passed through the serialisation its cbor behaviour uses')
prop('C26', 'A request from another node is executed as if it were made locally',
 'A message that another node sends to an actor of this node is handled exactly once, in turn with local messages, and the response tells its sender what a local caller would have been told: the reply, the handler error, a full or timed out mailbox, a timed out reply, or that the actor stopped or is not running. A request that names an unknown actor, message or actor type, or cannot be read, is answered with that error and has no effect; every request is answered, and no request stops this node from serving the next. A remote reference to an actor of this very node works like a local one, whoever the node is connected to.',
 'inputs configurations schedules', 'every kind of request, option, payload and handler outcome, in every state of the actor, correct and incorrect identifiers, connected and unconnected nodes, in virtual time',
 'No test runs a request from another node.',
 'src/remote/swarm.rs src/remote/_internal.rs src/request/ask.rs src/request/tell.rs src/remote.rs',
 [('incoming requests', 'src/remote/swarm.rs:handle_event'), ('execution by identifiers', 'src/remote/_internal.rs:ask'), ('requests to this node', 'src/remote/swarm.rs:handle_command')],
 'one request in each of 4 actor states with 6 handler outcomes, mailbox capacities 1 and 4, two settings of each timeout in virtual time; 4 targets x 4 identifier pairs x 3 payloads; 0-2 connected nodes; every request and its options between two nodes running the library\'s own network behaviour over an in-memory transport', [ENV])
prop('C27', 'Every remote operation ends with the answer that is its own',
 'Asking, telling, linking, unlinking, looking up, registering and unregistering through another node each complete exactly when the network answers that very operation, with the outcome it was answered with or the failure that prevented an answer; the answer to one operation never completes or fails another, in whatever order answers arrive and whichever callers have given up. A reply or handler error that cannot be read is reported as such, and an answer nobody waits for is harmless; listening, dialling and disconnecting are done, and their result is reported to who asked.',
 'schedules inputs fault_sequences', 'every operation, every answer and every failure, every order of answers to concurrent operations, abandoned callers, unreadable replies',
 'No test has a second node, so no operation ever gets an answer.',
 'src/remote/swarm.rs src/request/ask.rs src/request/tell.rs src/actor/actor_ref.rs',
 [('pending requests and queries', 'src/remote/swarm.rs:handle_event'), ('remote ask', 'src/request/ask.rs:remote_ask'), ('remote tell', 'src/request/tell.rs:remote_tell')],
 '7 operations with up to 22 ways of failing each; 2 (thorough 3) concurrent operations answered in any order, any of them abandoned; replies of up to 3 arbitrary bytes; requests and answers between two nodes running the library\'s own network behaviour over an in-memory transport',
 [ENV, 'the other node answers a request with the kind of response that was asked for'])
prop('C28', 'Links work across nodes, and losing a node counts as the death of its actors',
 'Actors of different nodes that are linked learn of each other\'s death once, with its reason, as local ones do: the death of an actor here is reported to each node that has an actor linked to it, a reported death reaches the actor it is meant for, and neither happens once they are unlinked. When the last connection to a node is lost, every actor here that is linked to actors there is told, once for each, that they are gone, and actors linked elsewhere are not. Linking through a remote reference to an actor of this node works as linking them directly.',
 'schedules histories fault_sequences', 'every order of linking, unlinking, deaths, reports and lost connections within the bound, correct and incorrect identifiers',
 'Links across nodes have no tests.',
 'src/remote/swarm.rs src/actor/actor_ref.rs src/actor/spawn.rs src/remote/_internal.rs',
 [('remote link', 'src/actor/actor_ref.rs:link_remote'), ('death reports', 'src/actor/spawn.rs:run_actor_lifecycle'), ('lost connections', 'src/remote/swarm.rs:handle_event')],
 'up to 2 actors here linked with up to 3 actors on 2 other nodes, links made from either side, sequences of unlinking, 3 causes of death, and closing of 1 of up to 2 connections; links and deaths between two nodes running the library\'s own network behaviour over an in-memory transport', [ENV])
prop('C30', 'Identities, requests, answers and errors keep their meaning between nodes',
 'What one node sends to another arrives with its meaning unchanged: an actor identity still stands for the same actor of the same node, a request still asks for the same thing with the same options, a response has the same outcome, and a stop reason the same cause. Bytes that are not an identity are rejected with the reason. Identities are equal exactly when they stand for the same actor, equal ones hash the same, and neither changes when this node joins the network.',
 'inputs', 'every identity of local, own and other nodes, every kind of request, response, error and stop reason with arbitrary contents, every byte string within the bound',
 'Tests serialise no request or response, and identities only of fixed values.',
 'src/actor/id.rs src/remote/swarm.rs src/error.rs',
 [('identity codec', 'src/actor/id.rs:from_bytes'), ('requests and responses', 'src/remote/swarm.rs:SwarmRequest'), ('remote errors', 'src/error.rs:RemoteSendError')],
 'all 64-bit sequence numbers, identities of peers with 1 and 32 byte digests, payloads of 3 arbitrary bytes, byte strings of length 0-13 (thorough 0-17), every variant of the enumerations; every request and answer through the codec of the library\'s own network behaviour between two nodes over an in-memory transport', [ENV])
prop('C31', 'Names registered in the network are found by type, and bad records break nothing',
 'Looking up a name, here or anywhere, finds the actor last registered under it, nothing once the name is unregistered, and an error if it is of another type. An actor becomes reachable by other nodes exactly when its registration succeeded, stays alive while registered, and is no longer found here once stopped; a registration that the network or the own record store refuses fails with the reason. Whatever other nodes store under a name, a lookup ends with an actor, nothing or an error, and this node goes on.',
 'histories inputs fault_sequences', 'every sequence of registering, unregistering and looking up within the bound, every answer of the network, malformed records',
 'Names in the network have no tests.',
 'src/remote/swarm.rs src/actor/actor_ref.rs src/remote.rs',
 [('registration', 'src/remote/swarm.rs:register'), ('lookup', 'src/remote/swarm.rs:lookup'), ('records', 'src/remote/swarm.rs:ActorRegistration')],
 'sequences of 3 (thorough 4) operations over 2 names, 3 actors of 2 types; records cut anywhere, with one arbitrary byte in any of 6 (thorough all) places, or of 2 (thorough 4) arbitrary bytes; 4 ways of stopping; records of the library\'s own network behaviour (Kademlia) on one node and between two nodes over an in-memory transport',
 [ENV, 'a name unregistered or whose actor stopped may stay reachable by its identity: the reference kept for other nodes is not dropped'])
prop('C90', 'Nodes find and reach each other over a real network',
 'Every connected node eventually finds the records of the others, messages between connected nodes arrive, and the loss of a connection is noticed.',
 'schedules fault_sequences configurations', 'every topology, connection loss and message schedule', 'Needs several nodes and network faults; no test runs more than one node.',
 'src/remote/swarm.rs src/remote.rs', [('default swarm', 'src/remote/swarm.rs:ActorSwarm')],
 na='decided by libp2p (QUIC and TCP, crypto handshakes, mDNS) over sockets, epoll and wall-clock timers, which no executor here encodes; what kameo does with the network\'s answers is decided by C26-C28, C30 and C31, with the network as symbolic environment and with two nodes of the real behaviour over an in-memory transport')
prop('C91', 'The derive and attribute macros expand every program they accept correctly',
 'Every actor, reply and message definition the macros accept expands to code that compiles and behaves like the hand-written equivalent.',
 'programs', 'every input program', 'Tests compile a handful of definitions.',
 'macros/src/messages.rs macros/src/derive_actor.rs macros/src/derive_reply.rs', [('message expansion', 'macros/src/messages.rs')],
 na='the quantifier is over Rust programs and the behaviour is that of the generated source after rustc: a token stream as solver input needs rustc itself inside the encoding')
prop('C92', 'Actors on dedicated threads behave as actors on tasks',
 'An actor spawned on its own thread goes through the same life as one spawned as a task, whatever its hooks and messages do and however it is stopped, and gives itself and its stop reason back to who joins the thread. Messages to it keep their order, asks get their outcome, links work between it and actors on tasks, and blocking its thread holds up no other actor; its hooks and handlers can use the runtime. Where dedicated threads are not supported, spawning is refused without any effect.',
 'schedules configurations fault_sequences', 'every outcome of the hooks and messages and every cause of stopping, every interleaving of the threads involved within the bound',
 'One doc example spawns on a thread; the interleaving of threads is never controlled.',
 'src/actor/spawn.rs', [('threaded spawn', 'src/actor/spawn.rs:spawn_in_thread')],
 'one worker thread of the runtime, up to 2 dedicated threads, the caller and one more; 4 outcomes of starting x 3 of stopping x 4 messages x 3 causes of stopping, on a task and on a thread, switching wherever a thread waits; up to 1 (thorough 1-2) preemptions; the mailboxes of the spawning functions; what hooks and handlers may use of the runtime')
prop('C93', 'What the macros generate does what the annotated code says',
 'For every method marked as a message, sending the generated message runs that method once with each argument in its place and answers with what it returns: asynchronous methods are waited for, errors and panics are treated as those of hand-written handlers, and methods not marked stay plain methods. Generic methods and generic actors, documentation, visibility, derives and further attributes are carried over. A derived actor has its type\'s name or the one given and otherwise the default behaviour; a derived reply is its own value and never an error.',
 'inputs histories configurations', 'every argument, every sequence of messages within the bound, for each program of a fixed corpus that uses every feature of the macros',
 'One example uses the macros and no test checks what is generated.',
 'macros/src/messages.rs macros/src/derive_actor.rs macros/src/derive_reply.rs', [('messages', 'macros/src/messages.rs:Messages'), ('actors', 'macros/src/derive_actor.rs:DeriveActor'), ('replies', 'macros/src/derive_reply.rs:DeriveReply')],
 'a corpus of 4 actors with 18 messages and 3 replies; arbitrary arguments; sequences of 2 (thorough 3) of 12 messages; programs outside the corpus are not covered (C91)', ['the macros expand other programs as they expand those of the corpus'])

def main():
    src = ''.join(open(f).read() for f in glob.glob(V + '/smt/harness/src/c_*.rs') + glob.glob(V + '/smt/remote/src/c_*.rs'))
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    checks, na, meta = [], [], {}
    for p in P:
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na'])); continue
        if not re.search(rf'^\s+{p["id"].lower()}_\w+ \{{', src, re.M): print('no harness yet:', p['id']); continue
        checks.append(dict(property=p['id'], quick_cmd=f'python3 smt/check.py {p["id"]} --tier quick', thorough_cmd=f'python3 smt/check.py {p["id"]} --tier thorough',
            technique='symbolic execution of the compiled LLVM IR of the library, decided by Z3', level='model_checking',
            level_note=('Exhaustive within the bounds: ' + p['bounds'] + '. ' + p['note'] +
                        ' Trusts the IR executor (checked by replaying sampled paths and every counterexample natively), Z3 and rustc; interleavings are those at await points, except in harnesses named *_mt (threads, sequentially consistent, bounded preemption).').replace('  ', ' ')))
        m = dict(bounds=p['bounds'], assumptions=p['assumptions'])
        if p['reach']: m['reach'] = p['reach']
        meta[p['id']] = m
    json.dump(dict(version=1, setup_cmd='python3 smt/check.py setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
    json.dump(meta, open(V + '/smt/meta.json', 'w'), indent=1)
main()
