// Helpers for static facts about generated classes; C++11.
#pragma once
#include <cstdint>
#include <type_traits>
#include <utility>
#include <MessageInterface.h>
#include <Fields.h>
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>
namespace facts {
template<class T> struct decay { typedef typename std::decay<T>::type type; };
constexpr bool same(const char* a, const char* b) { return *a == *b && (*a == 0 || same(a + 1, b + 1)); }
template<class T> struct rep;
template<class E, uint32_t M> struct rep<::EmbeddedProto::RepeatedFieldFixedSize<E, M>> { typedef E elem; static constexpr uint32_t N = M; };
template<class T> struct str;
template<uint32_t M> struct str<::EmbeddedProto::FieldString<M>> { static constexpr uint32_t N = M; static constexpr bool text = true; };
template<uint32_t M> struct str<::EmbeddedProto::FieldBytes<M>> { static constexpr uint32_t N = M; static constexpr bool text = false; };
// Value type of a scalar: itself, or that of the field class around it (elements of repeated fields).
template<class T, bool C = std::is_class<T>::value> struct value { typedef T type; };
template<class T> struct value<T, true> { typedef typename std::decay<decltype(std::declval<const T&>().get())>::type type; };
}
