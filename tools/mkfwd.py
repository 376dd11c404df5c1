"""Generates forwarding headers: every abseil, TensorFlow, gRPC, snappy and
protobuf header path leads to the models in shim/vshim."""
import os, sys
out = sys.argv[1]
deps = '/opt/reverb-deps'
TF, AB, GR, PB = 'vshim/tf.h', 'vshim/absl.h', 'vshim/grpc.h', 'vshim/pb.h'
paths = {}
roots = [os.path.join(deps, 'tf/include'), os.path.join(deps, 'overlay')]
for r in roots:
    for top, to in (('absl', AB), ('tensorflow', TF), ('tsl', TF), ('grpcpp', GR), ('grpc', GR)):
        for d, _, fs in os.walk(os.path.join(r, top)):
            for f in fs:
                if f.endswith(('.h', '.inc')):
                    paths[os.path.relpath(os.path.join(d, f), r)] = to
extra = '''
grpcpp/grpcpp.h grpcpp/client_context.h grpcpp/create_channel.h grpcpp/server_context.h grpcpp/server_builder.h
grpcpp/server.h grpcpp/channel.h grpcpp/completion_queue.h grpcpp/security/credentials.h
grpcpp/security/server_credentials.h grpcpp/support/status.h grpcpp/support/status_code_enum.h
grpcpp/support/channel_arguments.h grpcpp/support/server_callback.h grpcpp/support/sync_stream.h
grpcpp/support/client_callback.h grpcpp/support/byte_buffer.h
grpcpp/impl/codegen/sync_stream.h grpcpp/impl/codegen/status.h grpcpp/impl/codegen/status_code_enum.h
grpcpp/impl/codegen/client_context.h grpcpp/impl/codegen/server_context.h grpcpp/impl/codegen/call_op_set.h
grpcpp/impl/codegen/proto_utils.h grpcpp/impl/codegen/sync.h grpcpp/impl/codegen/server_callback.h
grpcpp/impl/codegen/async_stream.h grpcpp/impl/codegen/channel_interface.h grpcpp/impl/call_op_set.h
grpc/grpc.h grpc/slice.h grpc/support/log.h
'''.split()
for p in extra:
    paths[p] = GR
for p in ['snappy.h', 'snappy-sinksource.h']:
    paths[p] = TF
for p in '''absl/status/status.h absl/status/statusor.h absl/strings/cord.h absl/flags/flag.h absl/flags/declare.h
absl/container/flat_hash_map.h absl/container/flat_hash_set.h absl/container/inlined_vector.h absl/container/btree_map.h
absl/container/node_hash_map.h absl/random/random.h absl/random/distributions.h absl/random/bit_gen_ref.h
absl/functional/function_ref.h absl/functional/any_invocable.h absl/functional/bind_front.h absl/cleanup/cleanup.h
absl/synchronization/barrier.h absl/synchronization/blocking_counter.h absl/synchronization/mutex.h
absl/synchronization/notification.h absl/algorithm/container.h absl/types/variant.h absl/types/any.h
absl/hash/hash.h absl/numeric/int128.h absl/numeric/bits.h absl/strings/substitute.h absl/strings/str_format.h
absl/base/call_once.h absl/base/thread_annotations.h absl/log/log.h absl/log/check.h'''.split():
    paths.setdefault(p, AB)
for p in '''google/protobuf/arena.h google/protobuf/message.h google/protobuf/repeated_field.h google/protobuf/map.h
google/protobuf/message_lite.h google/protobuf/text_format.h google/protobuf/util/message_differencer.h
google/protobuf/io/coded_stream.h google/protobuf/io/zero_copy_stream_impl_lite.h google/protobuf/util/time_util.h'''.split():
    paths[p] = PB
gen = set()
for p in ['tensorflow/core/framework/types.pb.h', 'tensorflow/core/framework/tensor.pb.h',
          'tensorflow/core/framework/tensor_shape.pb.h', 'tensorflow/core/protobuf/struct.pb.h']:
    gen.add(p)
for p, to in paths.items():
    if p in gen:
        continue
    if p.endswith('.pb.h') and p.startswith('tensorflow/'):
        to = TF
    q = os.path.join(out, p)
    os.makedirs(os.path.dirname(q), exist_ok=True)
    s = '#pragma once\n#include "%s"\n' % to
    if not os.path.exists(q) or open(q).read() != s:
        open(q, 'w').write(s)
