from numba import njit, jit, vectorize, guvectorize, generated_jit
