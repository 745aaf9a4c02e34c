/* configuration header for the checks: every value can be overridden with -D */
#ifndef GEL_CONF_H_INCLUDED
#define GEL_CONF_H_INCLUDED
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>

/* PID */
#ifndef VF_PID_CTRL_T
#define VF_PID_CTRL_T int
#endif
#ifndef VF_PID_OUT_T
#define VF_PID_OUT_T VF_PID_CTRL_T
#endif
typedef VF_PID_CTRL_T pid_control_type_t;
typedef VF_PID_OUT_T  pid_output_type_t;
#ifndef GEL_PID_INTEGRAL_HISTORY_SIZE
#define GEL_PID_INTEGRAL_HISTORY_SIZE 3
#endif
#ifndef GEL_PID_DERIVATIVE_DELTA
#define GEL_PID_DERIVATIVE_DELTA 2
#endif

/* watcher */
#ifndef GEL_MALLOC_AVAILABLE
#define GEL_MALLOC_AVAILABLE 0
#endif
#ifndef GEL_STATIC_BLOCK_SIZE
#define GEL_STATIC_BLOCK_SIZE 16
#endif

#define WL_BLOCK_SIZE 4

/* page manager */
#ifndef PMAN_NAVIGATION_DEPTH
#define PMAN_NAVIGATION_DEPTH 3
#endif
#ifndef VF_PMAN_T
#define VF_PMAN_T int
#define PMAN_VIEW_NULL 0
#define PMAN_DATA_NULL 0
#endif
typedef VF_PMAN_T pman_message_t;
typedef VF_PMAN_T pman_event_t;
typedef VF_PMAN_T pman_page_data_t;
typedef VF_PMAN_T pman_model_t;
typedef VF_PMAN_T pman_view_t;
#endif
