#pragma once
#define REPROC_EXPORT
#define REPROC_NO_EXPORT
