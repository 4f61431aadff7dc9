#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=list(observe)
    d["anchors"]["hook_needed"]=None
    P.append(d)

prop("C01","Ring keeps exactly the newest n values, oldest first",
 "A ring created with size n>=1 reports, through Take, exactly the last min(n,k) of the k values added so far, in insertion order (oldest first). Take never changes the ring and its result is a fresh slice that later Adds do not modify; creating a ring panics exactly when n<1.",
 ["inputs","histories"],"every size n>=1 and every sequence of Add/Take calls (fewer than 2^63 Adds)",
 "The one test uses a handful of sizes and histories; wrap-around, exactly-full and nth-lap positions are unbounded in both n and k.",
 ["xring/xring.go"],[("NewRing","xring/xring.go"),("(*Ring).Add","xring/xring.go"),("(*Ring).Take","xring/xring.go")],
 [("elements/index","window of the newest len(elements) values; index counts all Adds","xring/xring.go")],["Take result"])

prop("C02","Ring operations are atomic under concurrency",
 "Add and Take may be called from any number of goroutines: every call takes effect atomically at one point while the ring's lock is held (exclusively for Add), no access to the ring's contents happens without the lock, and the lock is released on every return. Hence every Take equals the newest values of some prefix of one total order of all Adds.",
 ["schedules","histories"],"every interleaving of any number of Add and Take calls",
 "Tests are single threaded for the ring; a data race or torn read needs a particular interleaving.",
 ["xring/xring.go"],[("lock discipline","xring/xring.go")],[("lock","guards elements and index","xring/xring.go")],["Add/Take results"])

prop("C03","Binary encoders and decoders are exact inverses",
 "WriteUint16, WriteUint32, WriteBool and WriteBytes write exactly the fixed encoding (big-endian integers; one byte 1/0; a big-endian 16-bit length followed by the payload) to a writer that accepts everything, and the matching Read function applied to a stream starting with that encoding returns the original value with a nil error and consumes exactly the encoded bytes. WriteBytes reports an error and writes nothing when the payload is longer than 65535 bytes, so nothing that was written successfully decodes to a different value.",
 ["inputs"],"every uint16, uint32, bool and every payload of every length, followed by arbitrary further bytes, delivered in any chunking",
 "Tests encode and decode the value 1 and a one-byte payload only.",
 ["xbinary/xbinary.go"],[("Write*/Read*","xbinary/xbinary.go")],(),["bytes given to io.Writer","return values"])

prop("C04","Binary readers and writers never mask an I/O failure",
 "Whatever the reader does within the io.Reader contract (short reads, zero-byte reads, data together with an error), a Read function returns a nil error only if it obtained all the bytes of its encoding from the reader and its value is the decoding of those bytes; when the stream ends early it returns a non-nil error and the zero value. Whatever error the writer returns, the Write function returns a non-nil error.",
 ["inputs","fault_sequences"],"every reader/writer behaviour allowed by io.Reader/io.Writer: every split of the data into reads, every point of failure",
 "Tests use bytes.Reader and one always-failing writer; short, empty and data-with-error reads never occur.",
 ["xbinary/xbinary.go"],[("Read*","xbinary/xbinary.go"),("Write*","xbinary/xbinary.go")],(),["return values"])

prop("C05","Byte pool hands out correctly sized, unshared buffers",
 "Malloc(size, capacity) with size>=0 returns a slice of length size whose capacity is exactly max(size, capacity), whatever buffers of whatever capacities were freed before; MallocSize(n) equals Malloc(n, n). A buffer is handed to at most one owner at a time: two buffers obtained and not yet freed never share memory.",
 ["inputs","histories","schedules"],"every history of Malloc and Free calls with arbitrary sizes, arbitrary freed slices owned by the caller, from any goroutines",
 "Tests allocate and free a few sizes and compare lengths; recycling a buffer of the wrong capacity or to two owners needs specific histories.",
 ["xbytes/pool.go"],[("Malloc","xbytes/pool.go"),("Free","xbytes/pool.go"),("getOrCreatePool","xbytes/pool.go")],
 [("bytesPoolMap","pool per capacity; every pooled slice has exactly that capacity","xbytes/pool.go")],["Malloc result"])

prop("C06","BatchError reports exactly the errors added",
 "For every sequence of Add calls on a BatchError: nil arguments are ignored; NotNil is true iff a non-nil error was added; Err is nil if none was, that very error if exactly one was, and otherwise an error whose message is the messages of all added errors in the order of addition joined by newlines. An error obtained from Err earlier keeps its message when more errors are added later.",
 ["inputs","histories"],"every sequence of Add/Err/NotNil calls with nil and non-nil errors",
 "Tests add at most two errors.",
 ["xerror/err.go","xstring/stringjoiner.go"],[("(*BatchError).Add/Err/NotNil","xerror/err.go"),("errorArray.Error","xerror/err.go")],(),["Err, NotNil, Error results"])

prop("C07","Integer min and max are exact",
 "MaxInt, MinInt, MaxInt64 and MinInt64 return exactly the mathematically larger respectively smaller of their two arguments for every pair of 64-bit integers. MaxFloat64, MinFloat64, MaxFloat32 and MinFloat32 return the larger/smaller argument following math.Max/math.Min (NaN if either is NaN, infinities dominate, signed zeros ordered).",
 ["inputs"],"all pairs of 64-bit integers and all pairs of floats",
 "Tests use small integers, all exactly representable as float64.",
 ["xmath/xmath.go"],[("MaxInt..MinFloat32","xmath/xmath.go")],(),["return values"])

prop("C08","Write-once containers accept exactly one write",
 "Of all Write calls made on one Value or one Chan, with any (also differing) dynamic types of non-nil values, exactly the first to take effect returns true and every other returns false without panicking or blocking. From then on Value() always returns the winning value; the Chan's channel delivers exactly the winning value once and is then closed.",
 ["inputs","schedules","histories"],"every interleaving of any number of Write calls with arbitrary values",
 "Tests race same-typed integers once; mixed types and losing interleavings are not covered.",
 ["xonce/value.go","xonce/chan.go"],[("(*Value).Write/Value","xonce/value.go"),("(*Chan).Write/Chan","xonce/chan.go")],
 [("wrote","0 before, 1 after the single winning write","xonce/chan.go")],["Write results","Value()","channel contents"])

prop("C09","Spinlock gives mutual exclusion",
 "At any time at most one caller holds a Spinlock: Lock returns, and TryLock returns true, only by atomically taking a free lock; TryLock returning false changes nothing and TryLock on a free lock (without competitors) succeeds. Unlock makes the lock free, so that a waiting Lock can proceed.",
 ["schedules","histories"],"every interleaving of Lock, TryLock and Unlock calls by any number of goroutines that unlock only what they hold",
 "The race tests sample a few schedules.",
 ["xsync/spinlock.go"],[("TryLock/Lock/Unlock","xsync/spinlock.go")],[("lock","1 iff held","xsync/spinlock.go")],["TryLock result"])

prop("C10","Map behaves as a map for every sequence of operations",
 "For every sequence of Load, Store, LoadOrStore, ComputeIfAbsent, ComputeIfPresent, LoadAndDelete, Delete, Clear and Range calls, xsync.Map returns exactly what an ordinary map would: Load/LoadOrStore/ComputeIf* see the latest stored value, ComputeIfAbsent stores the computed value only for an absent key, ComputeIfPresent replaces the value only of a present key by the function of its current value, and operations on one key never affect another. Range visits every present key exactly once with its value and stops when the callback returns false.",
 ["inputs","histories"],"every finite sequence of operations with arbitrary keys and values, i.e. from every reachable internal state (read-only part, dirty part, expunged and deleted entries, miss counts)",
 "The quick-check test samples short sequences, does not cover ComputeIfPresent or Clear, and rarely reaches expunged entries.",
 ["xsync/map.go"],[("Map methods","xsync/map.go")],
 [("read/dirty/misses","two-level representation of the contents","xsync/map.go"),("entry.p","value, nil (deleted) or expunged","xsync/map.go")],["return values of every method"])

prop("C11","Map per-key operations are atomic under concurrency",
 "Concurrent operations on the same key of xsync.Map each take effect atomically: a stored value is never lost or resurrected, of concurrent LoadOrStore/ComputeIfAbsent calls on an absent key exactly one stores, of concurrent LoadAndDelete calls at most one obtains a given value, and ComputeIfPresent replaces the value that its function was applied to (concurrent increments are never lost). The internal maps are only touched under the map's lock or read from immutable snapshots, and the lock is released on every return.",
 ["schedules","histories"],"every interleaving of operations on one map",
 "The tests run few concurrent schedules and no concurrent ComputeIfPresent or Clear.",
 ["xsync/map.go"],[("entry.tryStore/tryLoadOrStore/tryCompute*/delete","xsync/map.go"),("m.mu discipline","xsync/map.go")],
 [("entry.p","atomically updated slot","xsync/map.go")],["return values of every method"])

prop("C12","SharedMap routes every key to one shard and behaves as one map",
 "For every shard-count option from 1 to 2^31, a SharedMap has a power-of-two number of shards not smaller than requested, every key always selects the same existing shard, and Load/Has/Store/MStore/LoadOrStore/ComputeIfAbsent/ComputeIfPresent/Delete/Clear act exactly as on a single map (LoadOrStore returns true iff it stored). Range visits every present key exactly once across all shards and visits nothing more after the callback returns false.",
 ["inputs","histories","configurations"],"every shard count, key and operation sequence",
 "Tests use the default shard count and simple numeric keys, and never stop a Range early.",
 ["xsync/shared_map.go"],[("GetShard","xsync/shared_map.go"),("getShardBlockSize","xsync/shared_map.go"),("fnv32","xsync/shared_map.go"),("Range","xsync/shared_map.go")],
 [("b, n, shardBlockSize","shards; n = count-1 mask","xsync/shared_map.go")],["return values"])

prop("C13","ResourceManager creates, shares and closes each resource exactly once",
 "Get returns the stored resource of its key if there is one, without calling create; otherwise it calls create once and stores and returns its result, and a failing create stores nothing and returns its error. Remove drops exactly the given key and reports whether it was present; Close calls Close exactly once on every stored resource, even if some fail, and returns nil iff all succeeded. The stored resources are only accessed under the manager's lock, which is released on every return.",
 ["inputs","schedules","histories"],"every sequence and interleaving of Get, Remove and Close with arbitrary keys, create outcomes and Close outcomes",
 "Tests use one key and never several failing resources, concurrent Gets or a Remove between Gets.",
 ["xsync/resourcemanager.go","xerror/err.go"],[("Get/Remove/Close","xsync/resourcemanager.go")],
 [("resources","key to resource","xsync/resourcemanager.go")],["return values","calls of create and Close"])

prop("C14","Do returns the task outcome and always runs the deferred function",
 "Do (and its wrappers) calls deferFunc, when non-nil, exactly once before returning or panicking, on every path, and only once the task has ended or the context is done. If the context is already done the task is never started and the context's error is returned; otherwise the task is started exactly once and Do returns the task's own error, or panics if the task panicked, or returns the context's error after the context became done. The task's goroutine can always finish after Do has returned (it never blocks on reporting its result), and Do never blocks once the task has ended or the context is done.",
 ["inputs","schedules","fault_sequences"],"every task outcome (nil, error, panic), every cancellation point and every scheduling of task, cancellation and Do",
 "Tests pick a few sleep-based timings; goroutine leaks and races between completion and cancellation need specific schedules.",
 ["xtask/do.go"],[("Do","xtask/do.go"),("DoWithTimeout, DoWithoutDefer","xtask/do.go")],
 [("doneChan/panicChan","one-slot result channels","xtask/do.go")],["return value, panic, calls of do and deferFunc"])

prop("C15","DoWithRetry stops at first success and reports every failure",
 "DoWithRetry calls fn repeatedly, one call at a time, until a call returns nil or 1+N calls (N = configured number of retries, default 3; at least one call is always made) have failed. It returns nil iff a call returned nil, makes no call after that, and otherwise returns the batch of all returned errors in order.",
 ["inputs","configurations","fault_sequences"],"every retry count and every sequence of outcomes of fn",
 "Tests use three counts and one success position each.",
 ["xtask/retry.go","xerror/err.go"],[("DoWithRetry","xtask/retry.go"),("WithRetry","xtask/retry.go")],(),["number of fn calls","return value"])

prop("C16","Barriers stop all transfers once the context is done",
 "Once its context is done, a ReadBarrier's Read returns (nil,false) without receiving and a WriteBarrier's Write returns false without sending. While the context is live, Write sends exactly its argument once and returns true, and Read (from an open channel) receives exactly one value and returns it with true.",
 ["inputs","schedules"],"every value, channel state and cancellation point before the call",
 "Tests run one cancellation pattern each.",
 ["xbarrier/readbarrier.go","xbarrier/writebarrier.go"],[("Read","xbarrier/readbarrier.go"),("Write","xbarrier/writebarrier.go")],(),["return values","channel contents"])

prop("C17","Worker bounds concurrency and runs every task once",
 "As long as the contexts passed are not cancelled, a Worker of size n never has more than n of the submitted functions executing at once, every submitted run function is executed exactly once and every deferFunc exactly once after its run function has returned. A slot is taken before a task starts and is given back exactly once per task, whatever the outcome (also when the context is already done, in which case run is not called but deferFunc still is).",
 ["schedules","histories","configurations"],"every size, every number of Run calls from any goroutines and every scheduling",
 "The test counts executions; it never measures the concurrency bound.",
 ["xworker/xworker.go","xtask/do.go"],[("Run","xworker/xworker.go"),("NewWorker","xworker/xworker.go")],[("c","slot channel of capacity n","xworker/xworker.go")],["calls of run and deferFunc"])

prop("C18","MapReduce maps every generated item exactly once, then closes",
 "With a live context, Map passes every item sent by the generate function to the map function exactly once, the output channel delivers exactly the values the map functions wrote (each once) and is closed exactly once, after the last map function has finished; at most the configured number of workers (default 16) run at once. MapStream is the stream of the same channel.",
 ["inputs","schedules","configurations"],"every generate function, map function, worker count and scheduling",
 "Tests count outputs for one worker.",
 ["xmapreduce/xmapreduce.go","xworker/xworker.go","xtask/do.go","xbarrier/writebarrier.go"],[("doMap","xmapreduce/xmapreduce.go"),("buildSource","xmapreduce/xmapreduce.go"),("Map/MapStream","xmapreduce/xmapreduce.go")],(),["output channel","calls of map function"])

prop("C19","Order-preserving stream stages select exactly the right elements",
 "For every finite input stream x and parameter: Skip(n) yields x without its first n elements, Limit(n) its first n, Tail(n) its last min(n,len) in order, Distinct(key) the first element of each key in order, Buffer and Peek yield x unchanged (Peek calling its function once per element in order), Reverse yields x reversed, Of/Range/From/Chan/Empty the given elements in order. Negative arguments of Skip, Limit and Tail panic (Buffer treats them as 0).",
 ["inputs"],"every finite input sequence and every size parameter",
 "Tests use one short stream per stage; boundary sizes (0, len, len+1) and duplicates are sampled thinly.",
 ["xstream/xstream.go","xstream/ring.go"],[("Skip/Limit/Tail/Distinct/Buffer/Peek/Reverse","xstream/xstream.go"),("ring","xstream/ring.go")],(),["output channel"])

prop("C20","Chunking, grouping and copying stages lose and invent nothing",
 "Split(n) and SplitSteam(n) cut the input into consecutive chunks of exactly n elements (the last one non-empty and possibly shorter) whose concatenation is the input, and panic for n<1; Merge yields the single slice of all elements in order. Group and GroupBy yield for every key exactly the elements with that key in input order (each group once); Sort yields a permutation of the input in which no element is less than its predecessor; Copy gives every named output the whole input in order.",
 ["inputs"],"every finite input sequence, chunk size, key function, strict-weak-order less function and set of output names",
 "Tests use one short input per stage.",
 ["xstream/xstream.go","xstream/collection.go"],[("Split/SplitSteam/Merge/Group/Sort/Copy","xstream/xstream.go"),("GroupBy/Group.Map","xstream/collection.go")],(),["output channel"])

prop("C21","Terminal stream operations compute their definition",
 "For every finite input stream: Count is its length; Foreach applies the function to each element in order, ForeachOrdered in reverse order, each exactly once; AnyMach/AllMach return whether some/every element satisfies the predicate (false/true on empty); FindFirst and FindLast return the first/last element, or ErrNoElement exactly when the stream is empty; Collection hands exactly the stream's channel to the collector; Done returns after consuming everything.",
 ["inputs"],"every finite input sequence, predicate and callback",
 "Tests use one or two streams per operation.",
 ["xstream/xstream.go"],[("Count/Foreach/ForeachOrdered/AnyMach/AllMach/FindFirst/FindLast/Collection/Done","xstream/xstream.go")],(),["return values","callback calls"])

prop("C22","Parallel stages process every item exactly once within the worker bound",
 "Walk, Map, Filter, FlatMap and ParallelFinish call the callback exactly once for every input element (FlatMap: once per member of a slice element and once per other non-nil element) with at most the configured number of workers (at least 1) running at once; the output is exactly the multiset of what the callbacks emitted, in input order when there is one worker. The output is closed exactly once, only after every callback has finished, and ParallelFinish returns only then.",
 ["inputs","schedules","configurations"],"every finite input, callback, worker count and scheduling",
 "Tests compare sets for one worker count on one schedule; early close, lost tokens and lost items need particular schedules.",
 ["xstream/xstream.go","xstream/option.go"],[("Walk","xstream/xstream.go"),("Map/Filter/FlatMap/ParallelFinish","xstream/xstream.go"),("loadOptions","xstream/option.go")],(),["output channel","callback calls"])

prop("C23","Every stage consumes its whole input and closes its output once",
 "Every stream stage and early-returning terminal operation (Limit, Skip, Tail, AnyMach, AllMach, FindFirst, SplitSteam, ...) leads to its entire input being consumed, also when it needs only part of it or rejects its argument by Tail/Skip/SplitSteam panicking, so upstream producers never stay blocked; and every output channel a stage creates is closed exactly once after its last element. Concat yields exactly the elements of all its input streams, each stream's elements in their own order, and closes after all of them are exhausted.",
 ["inputs","schedules"],"every finite input sequence and parameter, consumers that drain the output",
 "Leak and double-close paths depend on the position at which a stage stops; tests exercise few.",
 ["xstream/xstream.go"],[("drain","xstream/xstream.go"),("Concat","xstream/xstream.go"),("Limit/Skip/Tail/SplitSteam/AnyMach/AllMach/FindFirst","xstream/xstream.go")],(),["output channel","input channel consumption"])

prop("C24","Substring functions cut by character and never panic",
 "For every valid UTF-8 string s of m characters and all integers, Sub(s,start,end) returns exactly the characters from a to b, where negative start/end count from the end and both are then clamped into [0,m] (empty if a>=b); Left(s,end)=Sub(s,0,end) and Right(s,start)=Sub(s,start,m). None of them panics for any argument, and Len(s)=m.",
 ["inputs"],"every valid UTF-8 string and every pair of ints including the extreme values",
 "Tests sample a few indices on short strings.",
 ["xstring/xstring.go"],[("sub","xstring/xstring.go"),("Sub/Left/Right/Len","xstring/xstring.go")],(),["return value"])

prop("C25","Reversing, rotating and shuffling permute the characters",
 "For every valid UTF-8 string s of m characters: Reverse(s) returns the characters in opposite order with a nil error (MustReverse the same without panicking) and is its own inverse; Rotate(s,k) shifts the characters cyclically by k positions to the right (negative k: left), so character i moves to position (i+k) mod m. Shuffle(s) returns a permutation of the characters.",
 ["inputs"],"every string and every shift including multi-byte characters, U+FFFD and extreme shifts",
 "Rotate is tested on three ASCII characters only; Reverse on a dozen strings.",
 ["xstring/xstring.go"],[("Reverse/MustReverse/Rotate/Shuffle","xstring/xstring.go")],(),["return value"])

prop("C26","Padding functions pad to exactly the requested character count",
 "For every valid UTF-8 string s of m characters, valid character ch and size: if size<=m (or size<=0) all Pad functions return s unchanged; otherwise the result has exactly size characters, consisting of s with all padding ch on the left (PadLeft), right (PadRight), or floor((size-m)/2) left and the rest right (PadCenter); the Space variants use ' '. RepeatChar(ch,n) is ch n times and empty for n<=0.",
 ["inputs"],"every string, character and size",
 "Tests use a few ASCII sizes.",
 ["xstring/xstring.go"],[("PadLeft*/PadRight*/PadCenter*/RepeatChar","xstring/xstring.go")],(),["return value"])

prop("C27","Character-class and emptiness predicates quantify over all characters",
 "For every valid UTF-8 string: IsAlpha, IsNumeric and IsAlphanumeric are true iff the string is non-empty and every character is a Unicode letter, digit, or either; IsBlank is true iff every character is white space; IsEmpty iff there is none; IsNotEmpty/IsNotBlank are the negations. IsAnyEmpty/IsAnyBlank are true iff the list is empty or some element is empty/blank, IsNone* are their negations, and DefaultIfBlank/DefaultIfEmpty return the default exactly for blank/empty input and otherwise the input; EqualsAny and ContainsAnySubstrings are true iff some list element equals/occurs in the string.",
 ["inputs"],"every string and list of strings",
 "Tests cover a few strings per predicate.",
 ["xstring/xstring.go"],[("Is*, DefaultIf*, EqualsAny, ContainsAnySubstrings","xstring/xstring.go")],(),["return value"])

prop("C28","Difference and common prefix agree with the first differing character",
 "For valid UTF-8 strings, IndexOfDifferenceWithTwoStr(a,b) is -1 iff a=b and otherwise the length in characters of their longest common prefix, and Difference(a,b) is b from that character on (empty if equal). IndexOfDifference(list) is -1 if the list has fewer than two strings or all are equal, and otherwise the length in characters of the longest prefix common to all; CommonPrefix(list) is exactly that longest common prefix (empty for an empty list).",
 ["inputs"],"every list of valid UTF-8 strings",
 "Tests sample a few lists, mostly ASCII.",
 ["xstring/xstring.go"],[("IndexOfDifference*/Difference/CommonPrefix","xstring/xstring.go")],(),["return value"])

prop("C29","Case-insensitive matching is exact on regions",
 "For valid UTF-8 strings, RegionMatches(s,ic,i,t,j,n) is false when i, j or n is negative or a region leaves its string, and otherwise true iff the n characters of s from i equal those of t from j one by one (under case folding by lower/upper mapping when ic). EqualsIgnoreCase is true iff the strings have equally many characters and all match ignoring case; ContainsIgnoreCase iff some region of the first matches the second; EndsWith (and its Case/IgnoreCase variants) iff the second matches the end of the first, and EndsWithAny iff the first is non-empty and ends with some listed string.",
 ["inputs"],"every pair of strings, offsets and lengths",
 "Tests use short ASCII words of equal length.",
 ["xstring/xstring.go"],[("RegionMatches/EqualsIgnoreCase/ContainsIgnoreCase/EndsWith*","xstring/xstring.go")],(),["return value"])

prop("C30","Removal functions delete exactly the targeted characters",
 "For every valid UTF-8 string, RemoveChar(s,c) is s with exactly the occurrences of c removed and DeleteWhitespace(s) is s with exactly the white-space characters removed, all other characters kept in order. RemoveString(s,t) is s with all non-overlapping occurrences of t removed from left to right, and s itself when s or t is empty.",
 ["inputs"],"every valid UTF-8 string including multi-byte characters",
 "Tests use short ASCII strings.",
 ["xstring/xstring.go"],[("RemoveChar/RemoveString/DeleteWhitespace","xstring/xstring.go")],(),["return value"])

prop("C31","Abbreviate never exceeds the maximum width",
 "For every valid UTF-8 string, marker, offset and maxWidth, Abbreviate never panics, and when it returns a nil error with non-empty marker and non-empty string, the result is the string itself if it has at most maxWidth characters, and otherwise at most maxWidth characters that consist of marker-delimited contiguous part(s) of the string: a prefix of the string followed by the marker, the marker followed by a part of the string followed by the marker, or the marker followed by a suffix of the string. With an empty marker and maxWidth>0 it returns the first maxWidth characters; an error is returned only when maxWidth is too small for the marker(s) (below marker length+1, or below twice the marker length+1 when text is cut on both sides).",
 ["inputs"],"every string, marker, offset and width",
 "All tests use offset 0; the offset branches are never exercised.",
 ["xstring/xstring.go"],[("Abbreviate","xstring/xstring.go")],(),["return value"])

prop("C32","Joiner yields prefix, elements separated by step, suffix",
 "For every configuration and every sequence of Write, WriteString, WriteByte, WriteRune, Grow and Reset calls, String() is the prefix, then the elements written since the last Reset (or creation) with exactly one step between consecutive elements, then the suffix; Grow never changes the contents. Len() is always len(String()) and Cap() is never smaller than Len().",
 ["inputs","histories","configurations"],"every option set and every history of calls",
 "Tests write three elements in a row; Grow before the first write or Reset with a step configured are not covered.",
 ["xstring/stringjoiner.go"],[("Joiner methods","xstring/stringjoiner.go")],[("b, opts","accumulated elements; prefix/step/suffix","xstring/stringjoiner.go")],["String(), Len(), Cap()"])

prop("C33","Pooled buffered readers and writers carry no old state",
 "A reader obtained from GetBufferReader or GetBufferReaderSize delivers exactly the bytes of the reader it was requested for, and a writer obtained from GetBufferWriter or GetBufferWriterSize starts empty, without error, and writes only to the requested destination, whatever was done with pooled objects before they were put back. A *Size request gets a buffer of at least the requested size, and putting an object back drops its reference to the underlying reader or writer.",
 ["inputs","histories","schedules"],"every history of Get/Put calls with arbitrary readers, writers and sizes",
 "Tests reuse objects on the same underlying buffer with equal sizes only.",
 ["xio/buffer.go"],[("Get*/Put*","xio/buffer.go")],[("bufReaderPool/bufWriterPool","recycled bufio objects","xio/buffer.go")],["data read/written","Size()"])

prop("C34","String/byte-slice conversions preserve content",
 "StringToBytes(s) returns a slice with exactly the bytes of s (length and capacity equal to len(s)) and BytesToString(b) a string with exactly the bytes of b, for every input including empty and nil.",
 ["inputs"],"every string and byte slice",
 "Tests convert one or two literals.",
 ["internal/hack/xstring.go"],[("StringToBytes/BytesToString","internal/hack/xstring.go")],(),["return value"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
