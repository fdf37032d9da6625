P = "dmp_fast.pyx"
DMPM = "dmp/_dmp.py"

bug("loop-past-end", "X02", (P, """    cdef double smoothing
    for d in range(n_dims):
        if smooth""", """    cdef double smoothing
    for d in range(n_dims + 1):
        if smooth"""))
bug("negative-index", "X02", (P, "q12[0] = q1[0] * q2[0]",
                              "q12[0] = q1[-4] * q2[0]"))
bug("uninitialised-coupling", "X02", (P, """            cd[:] = 0.0
            cdd[:] = 0.0
        if tracking""", """            cd[:] = 0.0
        if tracking"""))
bug("short-buffer", "X02", (P, """cdef np.ndarray[double, ndim=1] q12 = np.empty(4)""",
    """cdef np.ndarray[double, ndim=1] q12 = np.empty(3)"""))
bug("empty-k", "X02", (P, """    cdef np.ndarray[double, ndim=1] cd = np.zeros(n_dims, dtype=np.float64)
    cdef np.ndarray[double, ndim=1] cdd = np.zeros(n_dims, dtype=np.float64)
    if""", """    cdef np.ndarray[double, ndim=1] cd = np.empty(n_dims, dtype=np.float64)
    cdef np.ndarray[double, ndim=1] cdd = np.zeros(n_dims, dtype=np.float64)
    if"""))
bug("smoothing-uninitialised", "X02", (P, """    if not smooth_scaling:
        smoothing_orn[:] = 0.0
""", ""))
bug("wrong-position-index", "X02", (P, "[[0, 0], [1, 1], [2, 2], [7, 6], [8, 7], [9, 8]]", "[[0, 0], [1, 1], [2, 2], [7, 6], [8, 7], [9, 12]]"))
