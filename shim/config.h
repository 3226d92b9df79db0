/* stand-in for the config.h that configure would write: the sources only take
 * NDEBUG-style and header-presence switches from it */
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define NDEBUG 1
