"""Writes harness/fshim.f90.in (run by hand; the result is committed)."""
import os
TYPES = [('c2c', 0, 'complex(C_FLOAT_COMPLEX)', 'complex(C_FLOAT_COMPLEX)', 'complex(C_FLOAT_COMPLEX)', 0, 0), ('c2c', 0, 'complex(C_DOUBLE_COMPLEX)', 'complex(C_DOUBLE_COMPLEX)', 'complex(C_DOUBLE_COMPLEX)', 1, 0),
         ('r2f', 0, 'real(C_FLOAT)', 'complex(C_FLOAT_COMPLEX)', 'complex(C_FLOAT_COMPLEX)', 0, 1), ('r2f', 0, 'real(C_DOUBLE)', 'complex(C_DOUBLE_COMPLEX)', 'complex(C_DOUBLE_COMPLEX)', 1, 1),
         ('r2c', 1, 'real(C_FLOAT)', 'complex(C_FLOAT_COMPLEX)', 'complex(C_FLOAT_COMPLEX)', 0, 2), ('r2c', 1, 'real(C_DOUBLE)', 'complex(C_DOUBLE_COMPLEX)', 'complex(C_DOUBLE_COMPLEX)', 1, 2)]
o = []; w = o.append
w('! Written by tools/mkfshim.py: the public Fortran interface of one backend behind C functions.')
w('module vh_fshim\n use heffte_@B@\n use, intrinsic :: iso_c_binding\n implicit none\n type(heffte_fft3d_@B@), save :: pc(16)\n type(heffte_fft3d_r2c_@B@), save :: pr(16)\ncontains')
w('''integer(C_INT) function sc_of(i)
 integer(C_INT), intent(in) :: i
 sc_of = scale_@B@_none
 if (i == 1) sc_of = scale_@B@_full
 if (i == 2) sc_of = scale_@B@_symmetric
end function''')
w('''subroutine fshim_create(slot, r2c, form, b, dir, comm, reorder, alg, pencils) bind(C, name="fshim_create")
 integer(C_INT), value :: slot, r2c, form, dir, comm, reorder, alg, pencils
 integer(C_INT) :: b(18)
 integer :: fc
 logical :: lr, lp
 fc = comm; lr = reorder /= 0; lp = pencils /= 0''')
B = lambda idx: ', '.join('b(%d)' % i for i in idx)
il, ih, io, ol, oh, oo = [range(1 + 3 * k, 4 + 3 * k) for k in range(6)]
for r2c, arr, ty, d in ((0, 'pc', 'heffte_fft3d_@B@', ''), (1, 'pr', 'heffte_fft3d_r2c_@B@', 'dir, ')):
    w(' if (r2c == %d) then' % r2c)
    w('  if (form == 0) then\n   %s(slot) = %s(%s, &\n    %s, %sfc)' % (arr, ty, B([*il, *ih]), B([*ol, *oh]), d))
    w('  else if (form == 1) then\n   %s(slot) = %s(%s, &\n    %s, &\n    %sfc)' % (arr, ty, B([*il, *ih, *io]), B([*ol, *oh, *oo]), d))
    w('  else\n   %s(slot) = %s(%s, &\n    %s, &\n    %sfc, lr, alg, lp)\n  endif\n endif' % (arr, ty, B([*il, *ih, *io]), B([*ol, *oh, *oo]), d))
w('end subroutine')
w('''subroutine fshim_release(slot, r2c) bind(C, name="fshim_release")
 integer(C_INT), value :: slot, r2c
 if (r2c == 0) then
  call pc(slot)%release()
 else
  call pr(slot)%release()
 endif
end subroutine
subroutine fshim_assign(to, from, r2c) bind(C, name="fshim_assign")
 integer(C_INT), value :: to, from, r2c
 if (r2c == 0) then
  pc(to) = pc(from)
 else
  pr(to) = pr(from)
 endif
end subroutine
integer(C_LONG_LONG) function fshim_info(slot, r2c, what) bind(C, name="fshim_info")
 integer(C_INT), value :: slot, r2c, what
 fshim_info = -1
 if (r2c == 0) then
  if (what == 0) fshim_info = pc(slot)%size_inbox()
  if (what == 1) fshim_info = pc(slot)%size_outbox()
  if (what == 2) fshim_info = pc(slot)%size_workspace()
  if (what == 3) fshim_info = pc(slot)%size_comm_buffers()
 else
  if (what == 0) fshim_info = pr(slot)%size_inbox()
  if (what == 1) fshim_info = pr(slot)%size_outbox()
  if (what == 2) fshim_info = pr(slot)%size_workspace()
  if (what == 3) fshim_info = pr(slot)%size_comm_buffers()
 endif
end function
real(C_DOUBLE) function fshim_factor(slot, r2c, sc) bind(C, name="fshim_factor")
 integer(C_INT), value :: slot, r2c, sc
 if (r2c == 0) then
  fshim_factor = pc(slot)%get_scale_factor(sc_of(sc))
 else
  fshim_factor = pr(slot)%get_scale_factor(sc_of(sc))
 endif
end function''')
names = []
for name, r2c, tin, tout, tws, prec, kind in TYPES:
    for dr, call in ((0, 'forward'), (1, 'backward')):
        n = 'x_%s_%s_%d' % (name, call, prec); names.append((n, kind, prec, dr)); a, b = (tin, tout) if dr == 0 else (tout, tin); obj = ('pc', 'pr')[r2c] + '(slot)'
        w('subroutine %s(slot, variant, batch, cin, cout, cws, nin, nout, nws, sc, omit)' % n)
        w(' integer(C_INT), intent(in) :: slot, variant, batch, sc, omit\n type(C_PTR), intent(in) :: cin, cout, cws\n integer(C_LONG_LONG), intent(in) :: nin, nout, nws')
        w(' %s, pointer :: x(:)\n %s, pointer :: y(:)\n %s, pointer :: z(:)' % (a, b, tws))
        w(' call c_f_pointer(cin, x, [nin])\n call c_f_pointer(cout, y, [nout])\n if (variant == 1 .or. variant == 2) call c_f_pointer(cws, z, [nws])')
        w(' if (omit /= 0) then')
        for v, args in enumerate(('x, y', 'x, y, z', 'batch, x, y, z', 'batch, x, y')): w('  if (variant == %d) call %s%%%s(%s)' % (v, obj, call, args))
        w(' else')
        for v, args in enumerate(('x, y', 'x, y, z', 'batch, x, y, z', 'batch, x, y')): w('  if (variant == %d) call %s%%%s(%s, sc_of(sc))' % (v, obj, call, args))
        w(' endif\nend subroutine')
w('subroutine fshim_exec(slot, kind, prec, dir, variant, batch, cin, cout, cws, nin, nout, nws, sc, omit) bind(C, name="fshim_exec")')
w(' integer(C_INT), value :: slot, kind, prec, dir, variant, batch, sc, omit\n type(C_PTR), value :: cin, cout, cws\n integer(C_LONG_LONG), value :: nin, nout, nws')
for n, kind, prec, dr in names: w(' if (kind == %d .and. prec == %d .and. dir == %d) &\n  call %s(slot, variant, batch, cin, cout, cws, nin, nout, nws, sc, omit)' % (kind, prec, dr, n))
w('end subroutine\nend module')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'fshim.f90.in'), 'w').write('\n'.join(o) + '\n')
