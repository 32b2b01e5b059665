#!/usr/bin/env python3
"""Writes /verif/checks.json: which harnesses decide which property, within what bounds."""
import json
REDIS=["lib/vfredis/lua.go","lib/vfredis/store.go","lib/vfredis/pipe.go"]
SQL=["lib/vfsql/"+f+".go" for f in "parse value db eval write schema over driver".split()]
STACK=REDIS+SQL+["stack.go","hist.go"]
C=[]
def c(prop,package,files,harnesses,assumptions=(),outside="",**kw):
    C.append(dict(property=prop,package=package,files=files,level="model_checking",harnesses=harnesses,assumptions=list(assumptions),outside=outside,**kw))
def h(func,quick,what,bounds,**kw):
    return dict(func=func,quick_s=quick,what=what,bounds=bounds,**kw)

A_SQL="The database is an in-memory model of the SQL statements, tables, unique indexes and transactions the code uses; isolation is serialisable per statement, with row locks held to commit."
A_REDIS="Redis is an in-memory model of the commands and scripts the code uses; commands are atomic."
A_ENV="Clocks are virtual and context deadlines never fire; tracing, logging and metrics are no-ops; ids are distinct."

c("P01","model",["model/balance.go"],[
 h("VApply",60,"UpdateBalances on two balances in any consistent state: exactly the amount moves, in the matching fields; refusals change nothing","all balances and amounts up to 10^30; normal, inflight"),
 h("VSettle",60,"commit and rollback of inflight amounts: exact, refused when the hold is smaller","all balances and amounts up to 10^30"),
 h("VTwice",60,"two movements in sequence, also with shared operands (no aliasing between amounts)","two steps, all amounts up to 10^30")],
 outside="Persistence of the balances (P03, P04).")
c("P02","model",["model/balance.go"],[
 h("VFunds",60,"the funds check accepts exactly when the available funds and overdraft limit cover the amount","all balances, holds, queued debits, amounts up to 10^30; limits as decimals")],
 outside="Concurrent writers (P06).")
c("P10","model",["model/balance.go","model/amount.go"],[
 h("VToPrecise",60,"decimal amount to precise amount: exact, half away from zero, deterministic","decimal amounts up to 15 digits; precisions 1..10^18 from a list of powers and others"),
 h("VFromPrecise",60,"precise amounts are used unchanged; displayed amount derived","all precise amounts up to 10^30")])
c("P09","model",["model/balance.go","model/amount.go"],[
 h("VSplit2",60,"two shares: amounts add up, each as asked, excess and negatives refused","two legs; all kinds; all amounts up to 10^30",solver_ms=2000),
 h("VSplit3",120,"three shares","three legs; all kinds",solver_ms=2000),
 h("VSplitStable",60,"the outcome does not depend on map iteration order","two legs, every iteration order",solver_ms=2000),
 h("VSplitNegative",40,"negative shares are refused","one or two legs",solver_ms=2000),
 h("VNoSplit",20,"a transaction without splits has no legs","all precisions and amounts")])
c("P16","internal/lock",REDIS+["internal/lock/lock.go"],[
 h("VExclusion",120,"at most one live holder; release and extension only by the owner","two or three lockers, every interleaving of their commands, expiry at any command"),
 h("VMulti",90,"several locks: all or none, given back exactly","up to three keys with repeats, a fault at any command"),
 h("VOrder",60,"keys are taken without duplicates in one global order","up to three keys, all strings of a small alphabet"),
 h("VWait",60,"waiting for a lock never takes it from its owner","two lockers")],[A_REDIS,A_ENV])
c("P20",".",["lineage_alloc.go"],[
 h("VSequential",120,"FIFO and LIFO allocation","up to four providers, all availabilities and amounts"),
 h("VProportional",200,"proportional allocation to within rounding","up to four providers, all availabilities and amounts")])
c("P31",".",REDIS+["queue_lane.go","cmd/lanes.go"],[
 h("VQueueName",90,"every transaction goes to one configured queue, the same for the same balance","queue counts 1..n, symbolic identifiers"),
 h("VHotLane",120,"hot pairs go to the hot lane only while hot","two pairs, any sequence of contentions"),
 h("VListened",120,"queue names are ones the worker listens on","queue counts, hot lane on and off",package="cmd")],[A_REDIS,A_ENV])
c("P03",".",STACK,[
 h("VHistory",120,"after every commit and every request the balances are the replay of the stored transactions; refused requests leave nothing","3 requests (thorough 4) of record (inflight, overdraft), commit (part, full), void, refund, reject; all amounts up to 10^30",thorough_s=900,reach=["recorded","committed","voided","refunded","rejected","refused"])],
 [A_SQL,A_REDIS,A_ENV],"Concurrent requests (P05–P08), queue deliveries (P11).")
c("P04",".",STACK+["fault.go"],[
 h("VFault",150,"a fault, a lost outcome or the death of the process at any one database step of a request: transaction, balances and work item are all durable or none is; reported failures leave nothing, reported successes are durable","one fault at every begin, statement, copy, commit and rollback of record, inflight record, commit, void, refund, reject; all amounts up to 10^30",thorough_s=600,reach=["fault","crash","done"]),
 h("VBatchFault",150,"the same for a coalesced batch: every member or none","batches of 2 (thorough 3), one fault at every step",thorough_s=600,reach=["fault","crash","batch"])],
 [A_SQL,A_REDIS,A_ENV],"Two faults in one request; faults inside PostgreSQL itself.")
c("P07",".",STACK+["fault.go","settle.go"],[
 h("VSettle",200,"every sequence of commits and voids (direct, by parent, repeated) of holds placed directly or through the queue","two requests (thorough three) over one or two holds, all amounts up to 10^30",thorough_s=800),
 h("VSettleTogether",200,"two overlapping commits or voids of one hold","every interleaving with one preemption (thorough two) at the database and Redis commands",thorough_s=800)],
 [A_SQL,A_REDIS,A_ENV],"")
c("P05",".",STACK+["fault.go","race.go"],[
 h("VSameRef",200,"two recordings (direct, inflight, rejection, queue) with equal or different references, in sequence or overlapping: at most one record and one movement per reference, unused references never refused as duplicates","every interleaving with one preemption (thorough two) at the database and Redis commands; all amounts up to 10^30",thorough_s=800),
 h("VRefQueued",100,"a reference given twice to the queue, with and without coalescing and batch reference checks, and a direct recording besides","three queued transactions, one direct",thorough_s=300)],
 [A_SQL,A_REDIS,A_ENV],"References that end in the queue's own suffix.")
c("P06",".",STACK+["fault.go","race.go"],[
 h("VLostUpdate",200,"two writers (thorough three) that read, compute and write balances, singly or as a set: conflicts are refused whole, the version counts the writes, no update is lost","every interleaving with two preemptions at the statements; all versions and amounts",thorough_s=800),
 h("VRace",150,"two whole requests that overlap, with working locks and with locks that are lost at once","every interleaving with one preemption",thorough_s=300)],
 [A_SQL,A_REDIS,A_ENV],"")
c("P08",".",STACK+["fault.go","refund.go"],[
 h("VRefund",150,"refunds of applied, held, committed, rejected, queued transactions, repeated and overlapping: exact reversal, at most once","two requests; every interleaving with one preemption (thorough two); all amounts up to 10^30",thorough_s=600),
 h("VRefundGroup",150,"refunding a group, twice, for any page size: each member once and no other transaction","groups of up to three, page sizes up to three",thorough_s=600),
 h("VRefundAgain",150,"the API's refund request given repeatedly for an applied, queued or held-and-committed transaction: funds go back once; paging and workers overlap","two requests (thorough three), page sizes 1 and 2; later pages read before or after the first refund is stored",thorough_s=600)],
 [A_SQL,A_REDIS,A_ENV],"")
c("P14",".",STACK+["fault.go","bulk.go"],[
 h("VBulk",200,"bulk requests, atomic or not, held or not, in the background or not: all or nothing","two members (thorough three), plain and split; all amounts and funds",thorough_s=700),
 h("VBulkFault",200,"an atomic bulk request with one failing database step","two members that are in order; one failing or lost step in the recording of any of them",thorough_s=700),
 h("VSplitAtomic",60,"an atomic split is carried out in whole or undone","two legs; all amounts and funds")],
 [A_SQL,A_REDIS,A_ENV],outside="Requests that are queued (skip_queue off), whose members are accepted and carried out later; a stop of the process inside the request; a fault inside the undoing.")
c("P11","cmd",STACK+["fault.go","facade.go","database/inst.go","cmd/deliver.go","cmd/link.s"],[
 h("VDeliver",120,"a queued transaction delivered up to three times: one final record, rejected exactly for lack of funds and only after the retries","all amounts and funds; retry settings; a busy lock",thorough_s=300),
 h("VDeliverFault",200,"deliveries with a fault or a stop","two deliveries (thorough three); one failing, lost or fatal step at any database statement",thorough_s=600),
 h("VDeliverMany",120,"two queued transactions of the same balances, taken together or hot","three deliveries in any order, all amounts and funds",thorough_s=300),
 h("VDeliverManyFault",200,"the same with a fault or a stop","two deliveries; one failing, lost or fatal step at any database statement",thorough_s=700)],
 [A_SQL,A_REDIS,A_ENV],outside="asynq's own delivery; its retry accounting is played by the harness.")
c("P12","cmd",STACK+["fault.go","facade.go","database/inst.go","cmd/deliver.go","cmd/coalesce.go","cmd/link.s"],[
 h("VCoalesce",400,"two queued transactions, taken together or one by one, end with the same balances, outcomes, references and dates","same pair, same source, same destination or disjoint; held or not; no, unlimited or limited overdraft; a refund as a member; delivered in either order; all amounts and funds",thorough_s=700),
 h("VCoalesce3",1,"three queued transactions","as before",thorough_s=800,thorough_only=True)],
 [A_SQL,A_REDIS,A_ENV],outside="Larger batches; faults during a batch (P04, P11).")
c("P13","cmd",STACK+["fault.go","facade.go","database/inst.go","cmd/deliver.go","cmd/recover.go","cmd/link.s"],[
 h("VRecover",60,"a queued transaction is swept until it is decided, then delivered after all","five sweeps; older or younger than the threshold; delivered before or not; held or not; all amounts and funds"),
 h("VRecoverFault",60,"the same with a fault or a stop","two sweeps; one failing, lost or fatal step at any database statement",thorough_s=200),
 h("VRecoverMany",100,"two queued transactions of the same balances","two sweeps",thorough_s=300),
 h("VRecoverManyFault",150,"the same with a fault or a stop","two sweeps",thorough_s=500)],
 [A_SQL,A_REDIS,A_ENV],outside="Larger backlogs; a sweep overlapping a delivery (each takes effect through the same recorded reference, P05).")
c("P15",".",STACK+["fault.go","bulk.go","dryrun.go"],[
 h("VPreview",120,"a previewed transaction, carried out at once or through the queue","any kind of source and destination (known, by indicator, new, unknown, the same); held or not; no, unlimited or limited overdraft; used reference; queued checks with another waiting; all amounts and funds",thorough_s=300),
 h("VPreviewSplit",120,"a previewed split","two legs on either side; fixed, percentage or remainder; a balance by name and by indicator; used references",thorough_s=300),
 h("VPreviewBulk",120,"a previewed bulk request","two items in three shapes; atomic or not; held or not; repeated and used references",thorough_s=400),
 h("VPreviewBulkSplit",150,"a previewed bulk request with a split","an item and a two-legged split (either side; a fixed part and the rest, in the thorough tier percentages too); atomic and held or neither; repeated and used references",thorough_s=400),
 h("VPreviewSettle",120,"a previewed commit or void","one hold, a group or a queued hold; settled before in part, in full, voided or not",thorough_s=300),
 h("VPreviewRefund",60,"a previewed refund","one transaction or a group; held, committed, voided or refunded before",thorough_s=300)],
 [A_SQL,A_REDIS,A_ENV],outside="Splits and bulk requests left to the queue, whose members race; hooks that refuse.")
c("P24","api",STACK+["fault.go","facade.go","database/inst.go","api/world.go","api/auth.go"],[
 h("VPermit",200,"the decision on one request: served exactly when open, master, or a live key whose scopes grant it","any path (known ones and any text up to six bytes), any method, keys absent, any text up to 26 bytes, master, real, altered, expired, revoked; one or two scopes of known parts or any text up to five bytes",thorough_s=600,reach=["served","refused"]),
 h("VGrant",60,"granting scopes to a new key","two held and one asked scope, known parts or any text up to five bytes",reach=["granted","refused"]),
 h("VGuarded",60,"every route of the server, without a valid key","all registered routes",reach=["asked"])],
 [A_SQL,A_REDIS,A_ENV,"The password hash is an ideal one-way function."],outside="TLS, rate limits, the metrics token.")
c("P25","api",STACK+["fault.go","facade.go","database/inst.go","api/world.go","api/auth.go","api/keys.go"],[
 h("VKeys",150,"keys of two owners, made, listed and revoked by either or the master, then used","two requests (thorough three); three scopes",thorough_s=600,reach=["made","listed","revoked"]),
 h("VExpiry",30,"a key whose time has come","used before or not"),
 h("VKeyRace",60,"a key looked up while it is revoked","every interleaving with one preemption at the database and cache commands",reach=["revoked"])],
 [A_SQL,A_REDIS,A_ENV,"The password hash is an ideal one-way function."],outside="The local cache of other server processes, which keeps a looked-up key for up to a minute; failing cache commands.")
c("P29","api",STACK+["fault.go","facade.go","database/inst.go","api/world.go","api/auth.go","api/amounts.go"],[
 h("VPosted",120,"a posted transaction (direct, queued, in a bulk request), whoever asks: the stored, queued and moved amounts are the stated ones, other fields are as stated, the caller's key is recorded","precise amounts up to 10^30; decimal amounts of 15 digits; no caller, master, key; metadata, null or none; held or not",reach=["recorded","queued"]),
 h("VParted",60,"a posted split","a stated part up to 2^63-1 and the rest",reach=["recorded"]),
 h("VCommitted",60,"a commit of a part of a hold, alone or in a bulk request","holds and precise parts up to 10^30, decimal parts of 15 digits",reach=["committed"]),
 h("VCreated",60,"a created ledger, balance, identity or account","a name of up to four bytes with quotes; metadata, null or none",reach=["created"])],
 [A_SQL,A_REDIS,A_ENV],outside="Bodies beyond the size limit; a stated part of a split beyond 2^63-1, which the code refuses; numbers inside metadata.")
c("P30","api",STACK+["fault.go","facade.go","database/inst.go","api/world.go","api/auth.go","api/meta.go"],[
 h("VMeta",150,"a metadata update of any entity; every row of every entity compared","ten entities of four kinds with parent, child and bulk relations, unknown and unusable ids; metadata before: an object with a text of up to two bytes, a number of 30 digits and an object, empty, JSON null, none; one of three keys set to a text of up to two bytes, null, a number, an object; one request (thorough two)",thorough_s=500,reach=["updated"]),
 h("VMetaRace",100,"two updates of one entity at once","every interleaving with one preemption at the database commands; the same key or different ones; parent and child",reach=["both"])],
 [A_SQL,A_REDIS,A_ENV],outside="Numbers beyond 2^53 in the given values, which the API reads as floating point; concurrent changes of other fields.")
c("P26","api",STACK+["fault.go","facade.go","database/inst.go","api/world.go","api/auth.go","api/tokens.go"],[
 h("VTokens",150,"a text tokenized in both formats under several keys and brought back","any text of up to two bytes (thorough three), longer ones of letters, digits and separators",thorough_s=500,reach=["tokenized"]),
 h("VPerson",150,"requests that tokenize and detokenize fields of an identity, one, listed or all","two requests (thorough three); seven field names; a text of up to two bytes",thorough_s=500,reach=["tokenized","back"]),
 h("VPersonRace",60,"two fields, or one twice, tokenized at once","every interleaving with one preemption at the database and lock commands",reach=["tokenized"])],
 [A_SQL,A_REDIS,A_ENV,"The cipher is an ideal authenticated one; the keyed hash is an independent random value per use."],outside="Fields changed by hand after tokenization; special characters and letters outside ASCII stay visible by design.")
c("P19","api",STACK+["fault.go","facade.go","database/inst.go","api/world.go","api/auth.go","api/amounts.go","api/monitors.go"],[
 h("VMonitor",150,"a monitor created through the API, then a transaction recorded or held, or a hold committed or voided","all six figures and operators, any whole threshold of up to 12 digits, precisions 1 and 100, any amount up to 10^30",thorough_s=500,reach=["fired","silent"]),
 h("VMonitorChanged",150,"a monitor added, changed, moved or deleted, with or without a change of the balance before","one monitor, one change, any thresholds and amount",thorough_s=500,reach=["fired"]),
 h("VMonitorRace",60,"a monitor changed or deleted while a transaction has the monitors looked up","every interleaving with one preemption at the database and Redis commands",thorough_s=200,reach=["changed"])],
 [A_SQL,A_REDIS,A_ENV,"Thresholds are whole numbers (the column is) of at most 12 digits, so that JSON numbers are exact."],outside="Processes other than the one the monitor is changed in keep a local cache for up to a minute; delivery of the notification.")
c("P17",".",STACK+["fault.go","database/inst.go","chain.go"],[
 h("VChain",150,"chaining ticks with a fault or crash at any database command, then further ticks","three records (thorough four), any number of them settled down, batches of 1 to 3, one fault",thorough_s=400,reach=["chained","fault","crash"]),
 h("VChainRace",100,"two chaining runs, or a run and a verification, at once","two records, every interleaving with two preemptions at the database commands",thorough_s=300,reach=["chained"]),
 h("VTampered",150,"a chain altered, then verified","three records; any one covered field replaced (texts of up to two characters, any amount), any one record removed, unchained, swapped with the next, or added at the end or in the middle, any one hash replaced",thorough_s=400,reach=["refused"])],
 [A_SQL,A_ENV,"SHA-256 is free of collisions."],outside="Whoever rewrites the chain and its bookmark consistently; two fields of one record changed together so that a separator moves from one to the other.")
c("P28","internal/monitoringexporter",["internal/monitoringexporter/redact.go"],[
 h("VRedactText",200,"what is exported of a message is the same whatever the bearer token, address password or query value in it","secrets with 1 or 2 (thorough 2 or 3) arbitrary symbols, every letter case of the scheme word, any ASCII symbol before and after, one or two secrets, texts up to and beyond the length that is kept",thorough_s=800,reach=["bearer","userinfo","query","bare query"]),
 h("VRedactNames",200,"what is exported of fields is the same whatever the value under a sensitive name, harmless values are exported","15 names in every letter case, with any symbol before or after, five nestings",thorough_s=500,reach=["names"]),
 h("VRedactNested",100,"the same for texts inside structures","16 kinds of structure, three levels",thorough_s=300,reach=["nested"])],
 [A_ENV],"Secrets written in other forms than those named; attributes of traces and metrics.")
c("P27",".",STACK+["fault.go","batches.go"],[
 h("VVisits",250,"refunding, committing and voiding the transactions under one id (through the page-wise machinery and through the queued actions) processes each member exactly once and nothing else, and reports the member that fails","groups of 1..3 (thorough 5) legs or bulk members, page sizes 1..n+1, buffers of 1 and 10, rows that the listing's order leaves equal in any order, one amount arbitrary up to 10^12",thorough_s=800,reach=["all","failure"]),
 h("VVisitFault",200,"the same with a failing database step: a reported success has processed everything, a failing listing is reported","groups of 1..2 (thorough 3), one fault at every statement",thorough_s=800,reach=["whole","fault"])],
 [A_SQL,A_REDIS,A_ENV],"Several workers at once; other operations on members while they are being paged (P07, P08).")
c("P23","internal/filter",SQL+["internal/filter/noinject.go","database/filters.go"],[
 h("VNoInject",120,"the text of a query is the same whatever the values are; placeholders are numbered consecutively and each argument has one","one or two conditions of every operator on every column of eight tables, values arbitrary texts up to 2 bytes, integers, booleans, fractions",thorough_s=300,reach=["built"]),
 h("VRefuse",120,"unknown fields, operators and malformed metadata paths are refused wherever they stand","fields and operators: any text up to 4 bytes, metadata keys: any text up to 3 bytes, known names with up to 2 bytes before or after",thorough_s=300,reach=["accepted","refused"]),
 h("VSort",60,"the column to sort by is a known one","any text up to 4 bytes, known names with up to 2 bytes after",reach=["refused","sorted"]),
 h("VSelect",150,"a condition selects exactly the records that meet it","every operator on every column of the five tables the API filters, two records, arbitrary column values and filter values (texts up to 2 bytes, numbers, dates to the microsecond, metadata)",package="database",thorough_s=600,reach=["selected","left out"]),
 h("VSides",60,"conditions on either side of a transaction, by balance and by name","every operator, two records between three balances",package="database",reach=["selected","left out","refused"]),
 h("VSelectAll",200,"several conditions select the records that meet all, or any, of them","two or three conditions out of sixteen kinds",package="database",thorough_s=800,reach=["selected","left out"]),
 h("VWritten",60,"values are compared as written in the body or the query string","texts that look like numbers, dates and booleans; numbers of many digits",package="database",reach=["asked"]),
 h("VPages",60,"sorted pages list every selected record once, in order","three records, every page size",package="database",reach=["pages"])],
 [A_SQL,A_ENV],"Queries whose types PostgreSQL refuses (LIKE on a number, comparing metadata that is no number as one); collation of texts outside a-z; metadata equality in a query string, where the type of the value is guessed.")
import os
json.dump(C,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","checks.json"),"w"),indent=1)
print(len(C),"checks")
