
subroutine f3_create(c,q,p) bind(c)
use iso_c_binding
use fft3d_wrap
integer(c_int), value :: c,q
type(c_ptr) :: p
call fft3d_create(c,q,p)
end subroutine
subroutine f3_destroy(p) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p
call fft3d_destroy(p)
end subroutine
subroutine f3_setup(p,a,o) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p
integer(c_int) :: a(16),o(3)
call fft3d_setup(p,a(1),a(2),a(3),a(4),a(5),a(6),a(7),a(8),a(9),a(10),a(11),a(12),a(13),a(14),a(15),a(16),o(1),o(2),o(3))
end subroutine
subroutine f3_memory(p,x,y) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p,x,y
call fft3d_setup_memory(p,x,y)
end subroutine
subroutine f3_compute(p,x,y,q) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p,x,y
integer(c_int), value :: q
call fft3d_compute(p,x,y,q)
end subroutine
subroutine f3_1d(p,x,q) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p,x
integer(c_int), value :: q
call fft3d_only_1d_ffts(p,x,q)
end subroutine
subroutine f3_remaps(p,x,y,q) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p,x,y
integer(c_int), value :: q
call fft3d_only_remaps(p,x,y,q)
end subroutine
subroutine f3_one(p,x,y,q,u) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p,x,y
integer(c_int), value :: q,u
call fft3d_only_one_remap(p,x,y,q,u)
end subroutine
subroutine f3_tune(p,a,o,q,n,t,u) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p
integer(c_int) :: a(16),o(3)
integer(c_int), value :: q,n,u
real(c_double), value :: t
call fft3d_tune(p,a(1),a(2),a(3),a(4),a(5),a(6),a(7),a(8),a(9),a(10),a(11),a(12),a(13),a(14),a(15),a(16),o(1),o(2),o(3),q,n,t,u)
end subroutine
subroutine f3_set(p,v) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p
integer(c_int), value :: v
call fft3d_set(p,"exchange"//c_null_char,v)
end subroutine
subroutine f3_get(p,gi,gd,g6,gs,gl) bind(c)
use iso_c_binding
use fft3d_wrap
type(c_ptr), value :: p
integer(c_int) :: gi,gl(3)
real(c_double) :: gd
integer(c_int64_t) :: g6
type(c_ptr) :: gs(3)
gi = fft3d_get_int(p,"ntrial"//c_null_char)
gd = fft3d_get_double(p,"setuptime"//c_null_char)
g6 = fft3d_get_int64(p,"memusage"//c_null_char)
gs(1) = fft3d_get_string(p,"precision"//c_null_char,gl(1))
gs(2) = fft3d_get_int_vector(p,"eflags"//c_null_char,gl(2))
gs(3) = fft3d_get_double_vector(p,"tremap2"//c_null_char,gl(3))
end subroutine

subroutine f2_create(c,q,p) bind(c)
use iso_c_binding
use fft2d_wrap
integer(c_int), value :: c,q
type(c_ptr) :: p
call fft2d_create(c,q,p)
end subroutine
subroutine f2_destroy(p) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p
call fft2d_destroy(p)
end subroutine
subroutine f2_setup(p,a,o) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p
integer(c_int) :: a(16),o(3)
call fft2d_setup(p,a(1),a(2),a(4),a(5),a(6),a(7),a(8),a(9),a(10),a(11),a(16),o(1),o(2),o(3))
end subroutine
subroutine f2_memory(p,x,y) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p,x,y
call fft2d_setup_memory(p,x,y)
end subroutine
subroutine f2_compute(p,x,y,q) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p,x,y
integer(c_int), value :: q
call fft2d_compute(p,x,y,q)
end subroutine
subroutine f2_1d(p,x,q) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p,x
integer(c_int), value :: q
call fft2d_only_1d_ffts(p,x,q)
end subroutine
subroutine f2_remaps(p,x,y,q) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p,x,y
integer(c_int), value :: q
call fft2d_only_remaps(p,x,y,q)
end subroutine
subroutine f2_one(p,x,y,q,u) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p,x,y
integer(c_int), value :: q,u
call fft2d_only_one_remap(p,x,y,q,u)
end subroutine
subroutine f2_tune(p,a,o,q,n,t,u) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p
integer(c_int) :: a(16),o(3)
integer(c_int), value :: q,n,u
real(c_double), value :: t
call fft2d_tune(p,a(1),a(2),a(4),a(5),a(6),a(7),a(8),a(9),a(10),a(11),a(16),o(1),o(2),o(3),q,n,t,u)
end subroutine
subroutine f2_set(p,v) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p
integer(c_int), value :: v
call fft2d_set(p,"exchange"//c_null_char,v)
end subroutine
subroutine f2_get(p,gi,gd,g6,gs,gl) bind(c)
use iso_c_binding
use fft2d_wrap
type(c_ptr), value :: p
integer(c_int) :: gi,gl(3)
real(c_double) :: gd
integer(c_int64_t) :: g6
type(c_ptr) :: gs(3)
gi = fft2d_get_int(p,"ntrial"//c_null_char)
gd = fft2d_get_double(p,"setuptime"//c_null_char)
g6 = fft2d_get_int64(p,"memusage"//c_null_char)
gs(1) = fft2d_get_string(p,"precision"//c_null_char,gl(1))
gs(2) = fft2d_get_int_vector(p,"eflags"//c_null_char,gl(2))
gs(3) = fft2d_get_double_vector(p,"tremap2"//c_null_char,gl(3))
end subroutine

subroutine r3_create(c,p) bind(c)
use iso_c_binding
use remap3d_wrap
integer(c_int), value :: c
type(c_ptr) :: p
call remap3d_create(c,p)
end subroutine
subroutine r3_destroy(p) bind(c)
use iso_c_binding
use remap3d_wrap
type(c_ptr), value :: p
call remap3d_destroy(p)
end subroutine
subroutine r3_set(p,v) bind(c)
use iso_c_binding
use remap3d_wrap
type(c_ptr), value :: p
integer(c_int), value :: v
call remap3d_set(p,"pack"//c_null_char,v)
end subroutine
subroutine r3_setup(p,a,o) bind(c)
use iso_c_binding
use remap3d_wrap
type(c_ptr), value :: p
integer(c_int) :: a(16),o(3)
call remap3d_setup(p,a(4),a(5),a(6),a(7),a(8),a(9),a(10),a(11),a(12),a(13),a(14),a(15),a(1),a(2),a(3),o(1),o(2))
end subroutine
subroutine r3_remap(p,x,y,z,w) bind(c)
use iso_c_binding
use remap3d_wrap
type(c_ptr), value :: p,x,y,z,w
call remap3d_remap(p,x,y,z,w)
end subroutine

subroutine r2_create(c,p) bind(c)
use iso_c_binding
use remap2d_wrap
integer(c_int), value :: c
type(c_ptr) :: p
call remap2d_create(c,p)
end subroutine
subroutine r2_destroy(p) bind(c)
use iso_c_binding
use remap2d_wrap
type(c_ptr), value :: p
call remap2d_destroy(p)
end subroutine
subroutine r2_set(p,v) bind(c)
use iso_c_binding
use remap2d_wrap
type(c_ptr), value :: p
integer(c_int), value :: v
call remap2d_set(p,"pack"//c_null_char,v)
end subroutine
subroutine r2_setup(p,a,o) bind(c)
use iso_c_binding
use remap2d_wrap
type(c_ptr), value :: p
integer(c_int) :: a(16),o(3)
call remap2d_setup(p,a(4),a(5),a(6),a(7),a(8),a(9),a(10),a(11),a(1),a(2),a(3),o(1),o(2))
end subroutine
subroutine r2_remap(p,x,y,z,w) bind(c)
use iso_c_binding
use remap2d_wrap
type(c_ptr), value :: p,x,y,z,w
call remap2d_remap(p,x,y,z,w)
end subroutine
