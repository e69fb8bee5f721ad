#pragma once
#define REPROCXX_EXPORT
#define REPROCXX_NO_EXPORT
