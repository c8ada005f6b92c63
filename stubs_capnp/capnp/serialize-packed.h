// Stand-in for reading packed messages from files: the harness supplies the segments of a (virtual) file. Everything above
// the byte level - pointers, lists, texts, bounds, traversal limits - is the real Cap'n Proto reader.
#pragma once
#include <capnp/message.h>
#include <capnp/serialize.h>
kj::ArrayPtr<const kj::ArrayPtr<const capnp::word>> vt_segments(int fd);  // throws what a broken stream would throw
namespace capnp {
class PackedFdMessageReader : public SegmentArrayMessageReader {
public:
  PackedFdMessageReader(int fd, ReaderOptions options = ReaderOptions(), kj::ArrayPtr<word> = nullptr) : SegmentArrayMessageReader(vt_segments(fd), options) {}
};
void writePackedMessageToFd(int fd, MessageBuilder &builder);
}
