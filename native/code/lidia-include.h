#include <LiDIA/bigint.h>
#include <LiDIA/bigint_matrix.h>
