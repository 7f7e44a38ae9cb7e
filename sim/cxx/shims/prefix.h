// Included ahead of every instrumented source: headers that newer releases of
// the libraries pull in transitively.
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
