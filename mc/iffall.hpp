// the public headers of the library under test
#pragma once
#include <cstdio>
#include <cstddef>
extern "C" {
#include "ifftypes.h"
#include "io.h"
#include "id.h"
#include "chunkregistry.h"
#include "chunk.h"
#include "group.h"
#include "cat.h"
#include "form.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "field.h"
#include "util.h"
#include "error.h"
#include "iff.h"
#include "defaultregistry.h"
}
