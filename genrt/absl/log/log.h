#pragma once
#include <cstdlib>
#include <iostream>
struct VerifLogStub {
  template <typename T>
  VerifLogStub& operator<<(const T&) { return *this; }
};
#define LOG(x) VerifLogStub()
