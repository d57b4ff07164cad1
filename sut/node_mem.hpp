// in front of the addon's source: what it allocates is accounted for
#pragma once
#include "wtr/watcher-c.h"
#include <node_api.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
void* nx_malloc(size_t);
void* nx_calloc(size_t, size_t);
char* nx_strdup(char const*);
void nx_free(void*);
}
#define malloc nx_malloc
#define calloc nx_calloc
#define strdup nx_strdup
#define free nx_free
