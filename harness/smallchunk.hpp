// Force-included for the "small chunk" variants: the tape's containers use SX_CHUNK elements per
// chunk (a template parameter of the real container), so that chunk boundaries lie within the bounds.
#pragma once
#include <XAD/ChunkContainer.hpp>
#include <XAD/TapeContainer.hpp>
#include <utility>
namespace xad
{
template <class> struct AReal;
template <class> struct FReal;
template <> struct TapeContainerTraits<double> { typedef ChunkContainer<double, SX_CHUNK> type; };
template <> struct TapeContainerTraits<float> { typedef ChunkContainer<float, SX_CHUNK> type; };
template <> struct TapeContainerTraits<unsigned> { typedef ChunkContainer<unsigned, SX_CHUNK> type; };
template <> struct TapeContainerTraits<std::pair<unsigned, unsigned> > { typedef ChunkContainer<std::pair<unsigned, unsigned>, SX_CHUNK> type; };
template <class T> struct TapeContainerTraits<AReal<T> > { typedef ChunkContainer<AReal<T>, SX_CHUNK> type; };
template <class T> struct TapeContainerTraits<FReal<T> > { typedef ChunkContainer<FReal<T>, SX_CHUNK> type; };
}
