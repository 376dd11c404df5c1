#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props

C = 'reverb/cc/'
# id: (title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], observe_at)
T = {
'C01': ('Rate limiter admits exactly what its limits allow',
  'An insert of n items is admitted exactly when the table would not exceed its minimum size or the resulting inserts*samples_per_insert - samples stays within the maximum; a sample of n items is admitted exactly when the table holds the minimum size and the resulting difference stays within the minimum. The counters behind these decisions change by exactly one per completed operation, become zero on reset, and survive a checkpoint unchanged.',
  ['inputs', 'histories'], 'every configuration of the limits, every value of the three counters, every short history of operations from there',
  'The tests try a handful of limits and counter values; an off-by-one at a boundary, or a counter updated on one path only, shows only for particular combinations.',
  [C+'rate_limiter.cc', C+'rate_limiter.h'], [('RateLimiter::CanInsert/CanSample', C+'rate_limiter.cc')], ['RateLimiter::CanInsert', 'RateLimiter::CanSample', 'RateLimiter::CheckpointReader']),
'C02': ('Blocked inserts and samples wake up, time out or are cancelled',
  'A caller blocked by the rate limiter resumes as soon as some other operation makes its own operation admissible, returns a deadline error only when its timeout has elapsed without that, and returns a cancelled error once the limiter is cancelled; no caller is forgotten. The rate limiter info reports the number of completed operations and the completed-call event log returns every retained event from the requested id on.',
  ['schedules', 'inputs'], 'every interleaving of blocked inserters, samplers, deleters, resetters and a canceller within the thread bound, every timeout order',
  'A lost wakeup or a timeout that wins against an available slot needs one particular schedule.',
  [C+'rate_limiter.cc', C+'rate_limiter.h'], [('AwaitCanInsert/MaybeSignalCondVars', C+'rate_limiter.cc')], ['RateLimiter::AwaitCanInsert', 'RateLimiter::Info', 'RateLimiter::GetEventHistory']),
'C03': ('A table never exceeds its capacity and evicts what its remover picks',
  'After every operation a table holds at most its maximum number of items; an insert into a full table evicts exactly one item, the one the remover ranks first, and no other item. Size, number of distinct episodes, deleted-episode count and number of distinct sampled items reported by the table always equal those implied by the history.',
  ['histories', 'configurations', 'inputs'], 'every history of table operations within the bound, every remover kind and capacity',
  'The tests follow a few hand-written histories; bookkeeping that drifts needs an eviction, a deletion and an update of related items in one particular order.',
  [C+'table.cc', C+'table.h'], [('Table::InsertOrAssign/DeleteItem', C+'table.cc')], ['Table::size', 'Table::info', 'Table::Copy']),
'C04': ('An item is sampled at most its allowed number of times, then removed',
  'With a sampling limit, an item is removed from the table immediately when it has been sampled that many times and is never returned again; without one, sampling never removes an item. Every sampled item carries the number of times it has been sampled, its priority, the probability with which it was drawn and the table size at the time of sampling.',
  ['histories', 'configurations'], 'every history of inserts, samples (single and batched), updates and deletions within the bound, every limit',
  'Tests sample one fixed pattern; batching across the removal of an item, or removal from one selector only, needs a specific mix.',
  [C+'table.cc'], [('Table::SampleInternal', C+'table.cc')], ['Table::Sample', 'Table::SampleFlexibleBatch']),
'C05': ('FIFO, LIFO and heap selectors return keys in their defined order',
  'The FIFO selector always selects the oldest inserted key, the LIFO selector the newest, and the min/max heap the key with the lowest/highest priority, the least recently inserted or updated first among equals; each reports probability one. Duplicate inserts and updates or deletions of missing keys are rejected and change nothing.',
  ['histories', 'inputs'], 'every history of insert, delete, update and clear within the bound, every priority order and tie pattern',
  'Tests use a few fixed histories; heap order errors need a deletion from the middle with particular priorities.',
  [C+'selectors/fifo.cc', C+'selectors/lifo.cc', C+'selectors/heap.cc', C+'support/intrusive_heap.h'], [('HeapSelector, IntrusiveHeap', C+'support/intrusive_heap.h')], ['ItemSelector::Sample']),
'C06': ('Uniform and prioritized selectors draw with the probabilities they define',
  'The uniform selector gives every present key probability one over the number of keys; the prioritized selector gives each key its priority to the power of the exponent, divided by the sum over all keys (uniform when all weights are zero). The reported probability is the actual one, only present keys are ever returned, and invalid priorities or unknown keys are rejected without effect.',
  ['histories', 'inputs'], 'every history of insert, delete, update and clear within the bound, every draw of the random generator, priorities from a grid',
  'Tests check frequencies statistically after one fixed history; an error in one subtree after a deletion from the middle or past a growth step is invisible to them.',
  [C+'selectors/uniform.cc', C+'selectors/prioritized.cc'], [('PrioritizedSelector sum tree', C+'selectors/prioritized.cc')], ['ItemSelector::Sample']),
'C07': ('Table mutations change exactly the named items',
  'Updating a key changes only that item\'s priority, and inserting an existing key acts as an update that leaves the size and the rate limiter alone; deleting a key removes exactly that item; unknown keys are ignored. Resetting a table removes every item and returns the counters and the rate limiter to their initial state.',
  ['histories', 'inputs'], 'every history of inserts, updates, deletes, samples and resets within the bound, with every key overlap',
  'Tests mutate one or two keys in isolation; a selector left out of step with the items needs a history mixing kinds of operations.',
  [C+'table.cc'], [('Table::MutateItems/Reset', C+'table.cc')], ['Table::MutateItems', 'Table::Reset', 'Table::Copy']),
'C08': ('A chunk stays retrievable exactly as long as someone holds it',
  'While any reference to a chunk exists, looking up its key returns that same chunk and inserting the key again does not replace it; once the last reference is gone the key is no longer found, and re-inserting it works and stays retrievable. A lookup of several keys fails as a whole if one is missing.',
  ['schedules', 'histories'], 'every interleaving of insert, get, release and background cleanup within the bound',
  'Tests run sequentially; a cleanup that races a re-insertion needs one schedule.',
  [C+'chunk_store.cc', C+'chunk_store.h'], [('ChunkStore cleaner', C+'chunk_store.cc')], ['ChunkStore::Get', 'ChunkStore::Insert']),
'C09': ('Chunks hold exactly the appended data, within the configured lengths',
  'Every row appended to a column ends up, once finalized, in exactly one chunk, in order, at the offset its cell reference names, and reading the cell back gives the appended value; no chunk is longer than the configured maximum, delta encoding is applied exactly when configured (copies of options keep it), and each chunk\'s episode range and length describe exactly its rows. A row of the wrong type or shape is rejected without effect.',
  ['histories', 'inputs', 'configurations'], 'every history of append, flush, reset and reconfiguration within the bound, every chunk length and kept-alive count',
  'Tests use a few lengths; off-by-one errors at chunk boundaries with sparse steps need specific combinations.',
  [C+'chunker.cc', C+'chunker.h'], [('Chunker::Append/FlushLocked', C+'chunker.cc')], ['CellRef::GetData', 'CellRef::GetChunk']),
'C10': ('Trajectory items are sent in order, with all their data, exactly once',
  'Every item created by a trajectory writer is sent exactly once, in creation order, with the table, priority and trajectory it was created with, after or together with every chunk it refers to, and with the list of chunks the server is to keep covering all data that pending and future items can still refer to. An item whose trajectory is invalid is rejected without effect.',
  ['histories', 'configurations'], 'every history of append, create item, flush and end episode within the bound, every chunk length and kept-alive count',
  'Tests use short fixed histories; an item that overtakes or drops a chunk needs a specific mix of column lengths and item spans.',
  [C+'trajectory_writer.cc', C+'chunker.cc'], [('TrajectoryWriter::CreateItem/SendNotAlreadySentChunks', C+'trajectory_writer.cc')], ['InsertStream requests']),
'C11': ('Trajectory writer flush and close finish whatever the schedule or fault',
  'Flush returns success only after every item it was asked to wait for is confirmed by the server, a deadline error when its timeout elapses first, and the error when the stream fails permanently; items unconfirmed when a connection breaks are sent again. Closing the writer always terminates.',
  ['schedules', 'fault_sequences'], 'every interleaving of the caller and the two stream workers within the bound, a stream failure at any point',
  'Loss or hang needs a failure or a close at one particular point of the worker loops.',
  [C+'trajectory_writer.cc'], [('RunStreamWorker, Flush, Close', C+'trajectory_writer.cc')], ['TrajectoryWriter::Flush', 'TrajectoryWriter::Close']),
'C12': ('A sampler delivers complete samples, in order, at most its maximum',
  'A sampler returns only complete samples, each exactly as sent by the server and with one value of each metadata field per sample; samples of one stream come in the order the server sent them and none is skipped or repeated, also when a stream breaks with a transient error; it returns at most the configured number of samples and at least that many unless an error, a timeout or closing ends it, which is then what callers are told; the samples requested at a time and per stream never exceed the configured limits. Closing unblocks callers and terminates.',
  ['schedules', 'fault_sequences', 'configurations'], 'every interleaving of workers and consumer within the bound, every split of the samples over responses and workers, a failure at any point',
  'Tests use one or two workers with a friendly mock; double counting or lost samples need a failure mid-stream.',
  [C+'sampler.cc', C+'sampler.h'], [('GrpcSamplerWorker, Sampler', C+'sampler.cc')], ['Sampler::GetNextTimestep', 'Sampler::GetNextSample']),
'C13': ('The writer emits chunks and items that reproduce the appended steps',
  'Every item written references exactly the last num_timesteps appended steps of the current episode, every chunk is sent before the items that need it, and each item is sent once in creation order. A send that fails with a transient error is retried on a new stream, so that every item still reaches the server and nothing but an item whose send failed is sent again; when unconfirmed items were lost with the stream, the call reports it instead of succeeding. Flush and Close send everything and, when the number of in-flight items is limited, wait until it is confirmed; items over more steps than available are refused; a closed writer accepts nothing.',
  ['histories', 'fault_sequences', 'configurations'], 'every history of append, create item, flush and close within the bound, every chunk length and maximum number of timesteps, a stream failure at any call',
  'Tests use fixed lengths; slice offsets at chunk boundaries and retries after partial sends need specific combinations.',
  [C+'writer.cc', C+'writer.h'], [('Writer::CreateItem/Finish/WritePendingData', C+'writer.cc')], ['InsertStream requests']),
'C14': ('Compression and delta encoding reproduce every tensor exactly',
  'Delta encoding followed by decoding returns the original tensor bit for bit for every supported type, including integer extremes and tensors with one or no rows, and leaves unsupported types unchanged. Compressing a tensor into a proto and decompressing it returns the same tensor.',
  ['inputs'], 'every element value, every supported type, every shape within the bound',
  'Tests use a few values; overflow at extremes and odd shapes are missed.',
  [C+'tensor_compression.cc', C+'tensor_compression.h'], [('DeltaEncode', C+'tensor_compression.cc')], ['DeltaEncode', 'CompressTensorAsProto', 'DecompressTensorFromProto']),
'C15': ('Queues deliver every element once, in order, and closing wakes everyone',
  'Elements come out of a queue exactly once and in push order, a bounded queue never holds more than its capacity, and a blocked push or pop resumes when it can proceed. Closing makes pushes fail and pops fail; marking the last element lets pops drain the rest first; a pop with a timeout fails only after it.',
  ['schedules', 'histories'], 'every interleaving of producers, consumers and a closer within the bound',
  'Tests use sleeps; a lost wakeup needs one interleaving.',
  [C+'support/queue.h', C+'support/unbounded_queue.h'], [('Queue, UnboundedQueue', C+'support/queue.h')], ['Queue::Push', 'Queue::Pop', 'Queue::PopBatch']),
'C16': ('Background executors run every accepted task and stop cleanly',
  'Every task accepted by an executor runs exactly once, and until it is closed a single worker starts them in order; destroying the executor waits for accepted tasks and never hangs. A periodic closure runs at its period, never concurrently with itself, and not after stop has returned.',
  ['schedules'], 'every interleaving of callers, workers and the stopper within the bound',
  'Tests use sleeps; a stop that races a scheduled task needs one interleaving.',
  [C+'support/task_executor.cc', C+'task_worker.h', C+'support/periodic_closure.cc'], [('TaskExecutor, PeriodicClosure', C+'support/periodic_closure.cc')], ['TaskExecutor::Schedule', 'PeriodicClosure::Stop']),
'C17': ('Restoring a checkpoint reproduces the table',
  'A table restored from its checkpoint has the same configuration, the same items with the same keys, priorities, times-sampled counts, trajectories and insertion order, the same counters and the same rate limiter state, and from then on admits, samples and evicts as the original would (equal-priority ties of the heap selectors follow insertion order after a restore). Saving and loading through the checkpointer preserves every table and every chunk its items need.',
  ['histories', 'configurations'], 'every history within the bound before the checkpoint, every selector kind, and every operation after it',
  'Tests restore one or two tables and compare few fields; an ordering or counter lost in the round trip shows only under particular selectors and histories.',
  [C+'table.cc', C+'platform/tfrecord_checkpointer.cc', C+'reverb_service_impl.cc'], [('Table::Checkpoint, TFRecordCheckpointer::Save/Load', C+'platform/tfrecord_checkpointer.cc')], ['Table::Checkpoint', 'TFRecordCheckpointer::Load']),
'C18': ('A failed or interrupted checkpoint never replaces a good one',
  'Whatever write or crash interrupts saving, the newest checkpoint marked complete is loadable and holds the state of a completed save; a save reports success only if all its data reached the file. Older checkpoints are removed only after a newer one is complete, and the configured number of newest ones is kept.',
  ['crash_points', 'fault_sequences'], 'a failure of any file system call and a crash after any of them, any number of earlier checkpoints within the bound',
  'Tests never inject a file system failure or a crash.',
  [C+'platform/tfrecord_checkpointer.cc'], [('TFRecordCheckpointer::Save/LoadLatest', C+'platform/tfrecord_checkpointer.cc')], ['TFRecordCheckpointer::Save', 'TFRecordCheckpointer::LoadLatest']),
'C19': ('Signatures accept exactly the data that matches them',
  'Flattening a signature lists its leaves in a fixed order with their names, types and shapes, and data is accepted exactly when it has the same number of columns and every column has the same type and a compatible shape; everything else is rejected with an error that changes nothing.',
  ['inputs', 'configurations'], 'every nested signature and every data tuple within the bound',
  'Tests cover a few signatures; a validator that stops early or compares the wrong element needs a particular mismatch.',
  [C+'support/signature.cc', C+'support/tf_util.h'], [('FlatSignatureFromStructuredValue', C+'support/signature.cc')], ['signature functions']),
'C20': ('Trajectory slices unpack to exactly the referenced rows',
  'Unpacking a column slice returns exactly the referenced rows, decompressed and decoded, for every valid offset and length, and every invalid reference (out of range column, offset or length, missing chunk) is rejected with an error. The flattened timestep view of a trajectory is accepted exactly when its columns are aligned over the same steps.',
  ['inputs'], 'every offset, length, column index and chunk size, including negative and extreme values',
  'Tests use small valid values; arithmetic at extremes is not exercised.',
  [C+'support/trajectory_util.cc', C+'support/trajectory_util.h'], [('UnpackChunkColumnAndSlice', C+'support/trajectory_util.cc')], ['UnpackChunkColumnAndSlice', 'FlatTrajectory functions']),
'C21': ('The insert stream stores each item with its chunks and confirms it once',
  'The service inserts each received item exactly once into the named table with the chunks it refers to, confirms each requested key once and only after the item is in the table, and keeps exactly the chunks the client asked to keep. A malformed request fails the stream with an error and leaves the server and other streams unaffected.',
  ['inputs', 'histories', 'schedules'], 'every sequence of requests within the bound, well formed or not',
  'Tests send well-formed sequences; malformed or split messages reach other paths.',
  [C+'reverb_service_impl.cc', C+'reverb_service_async_impl.cc'], [('InsertStream', C+'reverb_service_async_impl.cc')], ['InsertStream RPC']),
'C22': ('The sample stream returns complete samples, as many as asked for',
  'For every request the service sends exactly the requested number of samples, each as its metadata followed or accompanied by all its chunks in order, none mixed or duplicated, with the last message of each sample marked; it never exceeds the message size bound by more than one chunk. A timeout or an unknown table ends the request with the matching error.',
  ['inputs', 'histories', 'schedules'], 'every sequence of requests, sample counts, batch sizes and chunk sizes within the bound',
  'Tests use small fixed requests; splitting of a sample over messages depends on sizes.',
  [C+'reverb_service_impl.cc', C+'reverb_service_async_impl.cc'], [('SampleStream', C+'reverb_service_async_impl.cc')], ['SampleStream RPC']),
'C23': ('Asynchronous table operations are each answered exactly once',
  'Every sampling request and every insert handed to a table\'s worker is answered exactly once: with its result as soon as the rate limiter admits it, with a deadline error when its own timeout passes, or with a cancelled error when the table closes. Neither answering, closing nor destroying the table deadlocks.',
  ['schedules'], 'every interleaving of the worker, callers and a closer within the bound',
  'Tests cannot force the interleavings of the worker with timeouts and closing.',
  [C+'table.cc'], [('Table::TableWorkerLoop', C+'table.cc')], ['Table::EnqueSampleRequest', 'Table::InsertOrAssignAsync', 'Table::Close']),
'C24': ('Administrative calls do what they say on every table',
  'Reset, mutate-priorities, server-info, checkpoint and connection-initialisation calls act on exactly the named table, report an error for an unknown one, and report complete information; a checkpoint call fails without a checkpointer. A local connection shares the table only with a client of the same process.',
  ['inputs', 'histories'], 'every request within the bound',
  'Tests call each once with valid input.',
  [C+'reverb_service_impl.cc', C+'reverb_service_async_impl.cc'], [('service handlers', C+'reverb_service_async_impl.cc')], ['RPC responses']),
'C25': ('Table extensions see every change to the table, once and in order',
  'A registered extension is told of every insert, update, deletion, sampling and reset exactly once and in the order they happen, with the state of the item at that time, for synchronous and asynchronous extensions alike. It is told before the operation returns when it is synchronous.',
  ['histories', 'schedules'], 'every history of table operations within the bound',
  'Tests check a few single notifications.',
  [C+'table.cc', C+'table_extensions/base.cc'], [('Table::ExtensionOperation', C+'table.cc')], ['TableExtension callbacks']),
'C26': ('Statuses, ids and timeouts convert without loss',
  'Converting a status between its forms keeps code and message; a rate limiter timeout is told apart from other deadline errors; a timeout in milliseconds maps to the same duration, negative meaning forever; a 128-bit id keeps its value; a removed stream counts as unavailable, so that it is retried; a peer counts as local exactly when it is a loopback address or in-process; generated keys are drawn over the whole range.',
  ['inputs'], 'every code, message and value',
  'Tests use a few values.',
  [C+'support/grpc_util.h', C+'errors.cc', C+'support/key_generators.h', C+'support/uint128.h'], [('ToGrpcStatus/FromGrpcStatus', C+'support/grpc_util.h')], ['conversion functions']),
'C27': ('The client validates against the current server signature',
  'A client creates a sampler with given types and shapes only if they match what it knows of the table, and a writer with the signatures of the tables it knows; what it knows is that of the server\'s latest answer, which replaces the earlier one whenever the server\'s state id has changed. Options, keys, priorities and timeouts are passed on unchanged, and the errors of the server reach the caller unchanged. A table is shared in memory only when the server confirms that both are in one process.',
  ['histories', 'inputs'], 'every sequence of client calls and server states within the bound',
  'Tests use a fixed server state.',
  [C+'client.cc', C+'client.h'], [('Client::MaybeUpdateServerInfoCache', C+'client.cc')], ['Client methods']),
'C28': ('Concurrent table calls behave as if run one at a time',
  'Concurrent synchronous inserts, samples, mutations and resets on one table leave it in a state, and return results, that some sequential order of the same calls would give; a blocked call resumes when another call makes it admissible.',
  ['schedules'], 'every interleaving of up to three callers within the bound',
  'Tests rely on the scheduler; races between a blocked call and a deletion need one interleaving.',
  [C+'table.cc', C+'rate_limiter.cc'], [('Table mutex and rate limiter', C+'table.cc')], ['Table methods']),
'C29': ('Python rate limiters compute the limits they document',
  'The rate limiter constructors of the Python API pass on limits that satisfy their documented meaning: the buffer around the samples-per-insert target is centred on the minimum size, too small buffers are rejected, and queues and stacks alternate strictly.',
  ['inputs'], 'every samples-per-insert ratio, minimum size and error buffer',
  'Tests use a few values.',
  ['reverb/rate_limiters.py'], [('SampleToInsertRatio', 'reverb/rate_limiters.py')], ['limits passed on']),
}
NA = {
  'C29': 'the Python sources are outside the reach of the encoding used here (LLVM IR of the C++ sources); the arithmetic is local and the C++ side that enforces the limits is decided by C01',
}
NB = 'no harness has been built for it yet'
NOTE = ('Bounded symbolic execution of the LLVM IR of the current sources with Z3 deciding every branch and assertion; complete within the bounds '
        'named in the evidence, nothing is claimed outside them. Trusts clang, the models of abseil/TensorFlow/gRPC/protobuf in shim/, the executor in engine/, and Z3; '
        'sampled paths and every counterexample are replayed on a native build.')
TECH = 'bounded symbolic execution of LLVM IR (own executor) with Z3; schedules and faults as symbolic choices; native replay'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for k, (title, st, over, qt, why, files, mech, obs) in T.items():
            assert len(title) <= 80, title
            f.write(json.dumps(dict(id=k, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs))) + '\n')
    checks = [dict(property=k, quick_cmd='python3 tools/check.py %s quick' % k, thorough_cmd='python3 tools/check.py %s thorough' % k,
                   technique=TECH, level='model_checking', level_note=NOTE) for k in T if k in props.PROPS]
    na = [dict(property=k, reason=NA.get(k, NB)) for k in T if k not in props.PROPS]
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


main()
