#pragma once
struct Want { const char *name, *full; int type, index, inputs, options, outputs; const char *in[11], *opt[11], *out[11];
    ti_indicator_start_function start; ti_indicator_function plain, ref; ti_indicator_stream_new snew; ti_indicator_stream_run srun; ti_indicator_stream_free sfree; };
extern const char* want_version; extern const int want_count; extern const Want want[];
