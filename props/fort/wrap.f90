! C entry points to the generic procedures of the Fortran modules (test driver, not part of the code under test)
MODULE vk_wrap
    USE iso_c_binding
    IMPLICIT NONE
CONTAINS

SUBROUTINE vk_threads(n) BIND(C)
    USE omp_lib
    INTEGER(C_INT), VALUE :: n
    CALL omp_set_num_threads(n)
END SUBROUTINE

SUBROUTINE vk_random_state(n, seed, wf) BIND(C)
    USE random
    INTEGER(C_INT), VALUE :: n, seed
    COMPLEX(8) :: wf(n)
    CALL random_state(wf, n, seed)
END SUBROUTINE

SUBROUTINE vk_csr(op, n, nnz, indptr, indices, values, ar, ai, br, bi, x, y) BIND(C)
    USE csr
    INTEGER(C_INT), VALUE :: op, n, nnz
    INTEGER(C_INT), TARGET :: indptr(n + 1), indices(nnz)
    COMPLEX(8), TARGET :: values(nnz)
    REAL(8), VALUE :: ar, ai, br, bi
    COMPLEX(8) :: x(n), y(n)
    TYPE(SPARSE_MATRIX_T) :: m
    m = make_csr_matrix(indptr, indices, values)
    SELECT CASE (op)
    CASE (0)
        y = m * x
    CASE (1)
        y = amv(ar, m, x)
    CASE (2)
        y = amv(CMPLX(ar, ai, KIND=8), m, x)
    CASE (3)
        CALL amxpy(ar, m, x, y)
    CASE (4)
        CALL amxpy(CMPLX(ar, ai, KIND=8), m, x, y)
    CASE (5)
        CALL amxpby(ar, m, x, br, y)
    CASE (6)
        CALL amxpby(CMPLX(ar, ai, KIND=8), m, x, CMPLX(br, bi, KIND=8), y)
    END SELECT
END SUBROUTINE

SUBROUTINE vk_step(op, n, nnz, indptr, indices, values, nc, coef, x, y) BIND(C)
    USE csr
    USE propagation
    INTEGER(C_INT), VALUE :: op, n, nnz, nc
    INTEGER(C_INT), TARGET :: indptr(n + 1), indices(nnz)
    COMPLEX(8), TARGET :: values(nnz)
    REAL(8) :: coef(nc)
    COMPLEX(8) :: x(n), y(n)
    TYPE(SPARSE_MATRIX_T) :: m
    m = make_csr_matrix(indptr, indices, values)
    SELECT CASE (op)
    CASE (0)
        y = cheb_wf_timestep(m, coef, x, .true.)
    CASE (1)
        y = cheb_wf_timestep(m, coef, x, .false.)
    CASE (2)
        y = Fermi(m, coef, x)
    END SELECT
END SUBROUTINE

SUBROUTINE vk_haydock(n, nnz, indptr, indices, values, x, depth, resc, a, b) BIND(C)
    USE csr
    USE propagation
    INTEGER(C_INT), VALUE :: n, nnz, depth
    INTEGER(C_INT), TARGET :: indptr(n + 1), indices(nnz)
    COMPLEX(8), TARGET :: values(nnz)
    COMPLEX(8), TARGET :: x(n)
    REAL(8), VALUE :: resc
    COMPLEX(8) :: a(depth)
    REAL(8) :: b(depth)
    TYPE(SPARSE_MATRIX_T) :: m
    m = make_csr_matrix(indptr, indices, values)
    CALL Haydock_coef(x, depth, m, resc, a, b)
END SUBROUTINE

SUBROUTINE vk_math(op, n, ar, ai, br, bi, cr, x, y, z, out, rx, ry, rout) BIND(C)
    USE math
    INTEGER(C_INT), VALUE :: op, n
    REAL(8), VALUE :: ar, ai, br, bi, cr
    COMPLEX(8) :: x(n), y(n), z(n), out(n), a, b
    REAL(8) :: rx(n), ry(n), rout(n)
    a = CMPLX(ar, ai, KIND=8)
    b = CMPLX(br, bi, KIND=8)
    SELECT CASE (op)
    CASE (0)
        out = x .pAdd. y
        rout = rx .pAdd. ry
    CASE (1)
        out = x .pSub. y
        rout = rx .pSub. ry
    CASE (2)
        out = x .pMul. y
        rout = rx .pMul. ry
    CASE (3)
        out = a .pMul. x
        rout = ar .pMul. rx
    CASE (4)
        out = ar .pMul. x
    CASE (5)
        out = x .pDiv. y
        rout = rx .pDiv. ry
    CASE (6)
        out = x .pDiv. b
        rout = rx .pDiv. br
    CASE (7)
        out = x .pDiv. br
    CASE (8)
        out = x
        CALL self_mul(a, out)
        rout = rx
        CALL self_mul(ar, rout)
    CASE (9)
        out = x
        CALL self_mul(ar, out)
    CASE (10)
        out = x
        CALL self_div(out, b)
        rout = rx
        CALL self_div(rout, br)
    CASE (11)
        out = x
        CALL self_div(out, br)
    CASE (12)
        out(1) = inner_prod(x, y)
        rout(1) = inner_prod(rx, ry)
    CASE (13)
        out(1) = norm(x)
        rout(1) = norm(rx)
    CASE (14)
        out = copy(x)
        rout = copy(rx)
    CASE (15)
        out = y
        CALL axpy(a, x, out)
        rout = ry
        CALL axpy(ar, rx, rout)
    CASE (16)
        out = y
        CALL axpy(ar, x, out)
    CASE (17)
        out = y
        CALL axpby(a, x, b, out)
        rout = ry
        CALL axpby(ar, rx, br, rout)
    CASE (18)
        out = y
        CALL axpby(ar, x, br, out)
    CASE (19)
        out = axpbypcz(ar, x, br, y, cr, z)
    CASE (20)
        out = z
        CALL axpbypz(a, x, br, y, out)
    END SELECT
END SUBROUTINE

SUBROUTINE vk_kernel(n, g) BIND(C)
    USE kpm
    INTEGER(C_INT), VALUE :: n
    REAL(8) :: g(n)
    CALL jackson_kernel(g, n)
END SUBROUTINE

SUBROUTINE vk_fermi_coef(n, beta, mu, omf, eps, coef, nc) BIND(C)
    USE funcs
    INTEGER(C_INT), VALUE :: n, omf
    REAL(8), VALUE :: beta, mu, eps
    REAL(8) :: coef(n)
    INTEGER(C_INT) :: nc
    CALL get_Fermi_cheb_coef(coef, nc, n, beta, mu, omf /= 0, eps)
END SUBROUTINE

SUBROUTINE vk_fft(n, x, sgn) BIND(C)
    USE fft
    INTEGER(C_INT), VALUE :: n, sgn
    COMPLEX(8) :: x(n)
    CALL fft1d_inplace(x, sgn)
END SUBROUTINE

END MODULE vk_wrap
