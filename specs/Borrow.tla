-------------------------------- MODULE Borrow -------------------------------
(* What safe client code may do with borrowed memory: which programs would use *)
(* memory after it was given up, moved or handed to someone else exclusively.  *)
(* The objects of a program form a forest of loans.  Programs that are harmful *)
(* here must be refused by the compiler, all others must be accepted: the      *)
(* implementation under observation are the signatures of the crates.          *)
EXTENDS Common
CONSTANTS MaxObj, \* objects of a program
          Roots   \* kinds of objects methods are called on

\* kinds of objects; 1..9 are variables that own something
\*  1 Bump         2 unsync Bump   3 Chain      4 Pin<Box<ExitStack>>
\*  5 MaybeUninit  6 bytes         7 a number   8 Box<MemBump>        9 [MaybeUninit]
\* 10 &mut T      11 &T           12 LeakBox   13 LeakBox<MaybeUninit> 14 LeakBox<[MaybeUninit]>
\* 15 bump::Allocation            16 Uninit<()> 17 Uninit<[T]>        18 Uninit<T>
\* 19 UninitView  20 Box          21 FixedVec  22 Drain              23 Rc
\* 24 Weak        25 LeakBox<MemBump>          26 Slot               27 Pin<&mut T>
\* 28 &'static Bump               29 Box<dyn>  30 &mut [MaybeUninit]
\* 31 alloc_traits::Allocation    32 LeakedAllocation  33 &mut dyn   34 Pin<&mut dyn>
\* 35 Alloca      36 Pin<LeakBox> 37 &mut bytes        38 UninitView<[T]> 39 Uninit<dyn>
\* 40 &mut [T]    41 a &'static str   42 UninitView<()>
\* those whose destructor looks at the memory
Glue == {3, 4, 8, 12, 13, 14, 20, 21, 22, 23, 24, 25, 26, 29, 36}
Copied == {5, 6, 7, 9, 11, 15, 19, 28, 31, 38, 41, 42}

\* r: receiver
\* a: read (sh), changed (ex), consumed (mv), consumed by something that needs it to stay
\*    forever (st), or done something to that is harmful at any time (nv) or that is not there,
\*    because it would be harmful (ab)
\* k: what comes out (0: nothing), l: whether that borrows the receiver or goes on with its loan
\* the comment is how it reads in a program
M(r, a, k, l) == [r |-> r, a |-> a, k |-> k, l |-> l]
Meth == <<
  M(1, "sh", 10, "ref"),   \* $.leak(1u32).ok().unwrap()
  M(1, "sh", 12, "ref"),   \* $.leak_box(1u32).unwrap()
  M(1, "sh", 15, "ref"),   \* $.get::<u32>().unwrap()
  M(1, "sh", 10, "ref"),   \* $.leak_at(1u32, level()).ok().unwrap().0
  M(1, "sh", 12, "ref"),   \* $.leak_box_at(1u32, level()).ok().unwrap()
  M(1, "sh", 15, "ref"),   \* $.get_at::<u32>(level()).ok().unwrap()
  M(1, "sh", 15, "ref"),   \* $.get_layout(layout()).unwrap()
  M(1, "sh", 15, "ref"),   \* $.get_layout_at(layout(), level()).ok().unwrap()
  M(1, "sh", 31, "ref"),   \* LocalAlloc::alloc(&$, nonzero()).unwrap()
  M(1, "sh", 31, "ref"),   \* LocalAlloc::alloc_zeroed(&$, nonzero()).unwrap()
  M(1, "sh", 20, "ref"),   \* $.boxed(1u32).unwrap()
  M(1, "sh", 21, "ref"),   \* $.fixed_vec::<u32>(2).unwrap()
  M(1, "sh", 23, "ref"),   \* $.rc(1u32).unwrap()
  M(1, "sh", 32, "ref"),   \* $.alloc_layout(nonzero()).unwrap()
  M(1, "sh", 18, "ref"),   \* $.alloc_t::<u32>().unwrap().uninit
  M(1, "sh", 40, "ref"),   \* $.copy_slice(&[1u32, 2]).unwrap()
  M(1, "sh", 11, "ref"),   \* $.copy_str("a").unwrap()
  M(1, "sh", 0, "none"),   \* u(&$.level())
  M(1, "ex", 0, "none"),   \* $.reset()
  M(2, "sh", 13, "ref"),   \* $.bump_box::<u32>().ok().unwrap()
  M(2, "sh", 14, "ref"),   \* $.bump_array::<u32>(2).ok().unwrap()
  M(2, "sh", 15, "ref"),   \* $.get::<u32>().unwrap()
  M(2, "sh", 15, "ref"),   \* $.get_at::<u32>(level()).ok().unwrap()
  M(2, "sh", 0, "none"),   \* u(&$.level())
  M(2, "ex", 0, "none"),   \* $.reset()
  M(3, "sh", 13, "ref"),   \* $.bump_box::<u32>().ok().unwrap()
  M(3, "sh", 0, "none"),   \* $.chain(own3())
  M(3, "sh", 0, "none"),   \* u(&$.capacity())
  M(4, "sh", 26, "ref"),   \* $.as_ref().slot::<u32>().unwrap()
  M(4, "ex", 0, "none"),   \* $.as_mut().pop_all()
  M(4, "ex", 27, "ref"),   \* $.as_mut().set([1u64; 4])
  M(4, "nv", 0, "none"),   \* core::mem::swap(&mut *$, &mut ExitStack::new())
  M(4, "nv", 0, "none"),   \* { let s = 1u32; $.as_ref().slot::<&u32>().unwrap().pin(&s); }
  M(5, "ex", 18, "ref"),   \* Uninit::from_maybe_uninit(&mut $)
  M(5, "ex", 18, "ref"),   \* Uninit::from(&mut $)
  M(5, "sh", 19, "ref"),   \* UninitView::from_maybe_uninit(&$)
  M(5, "sh", 19, "ref"),   \* UninitView::from(&$)
  M(5, "ex", 13, "ref"),   \* LeakBox::from(&mut $)
  M(6, "ex", 25, "ref"),   \* MemBump::from_mem(&mut $).ok().unwrap()
  M(7, "ex", 12, "ref"),   \* LeakBox::from_mut(&mut $)
  M(7, "ex", 33, "ref"),   \* new_unsize!((&mut $), dyn Debug)
  M(7, "sh", 11, "ref"),   \* new_unsize!((&$), dyn Debug)
  M(7, "ex", 34, "ref"),   \* new_unsize!(Pin::new(&mut $), dyn Debug)
  M(8, "sh", 13, "ref"),   \* $.bump_box::<u32>().ok().unwrap()
  M(8, "sh", 14, "ref"),   \* $.bump_array::<u32>(2).ok().unwrap()
  M(8, "sh", 15, "ref"),   \* $.get::<u32>().unwrap()
  M(8, "sh", 0, "none"),   \* u(&$.capacity())
  M(8, "ex", 0, "none"),   \* $.reset()
  M(9, "ex", 17, "ref"),   \* Uninit::from_maybe_uninit_slice(&mut $)
  M(9, "ex", 17, "ref"),   \* Uninit::from(&mut $[..])
  M(9, "sh", 38, "ref"),   \* UninitView::from_maybe_uninit_slice(&$)
  M(9, "sh", 38, "ref"),   \* UninitView::from(&$[..])
  M(9, "ex", 14, "ref"),   \* LeakBox::from(&mut $[..])
  M(10, "mv", 33, "same"), \* new_unsize!(i!($), dyn Debug)
  M(10, "ex", 10, "ref"),  \* LeakBox::leak(LeakBox::from_mut(&mut *$))
  M(12, "mv", 10, "same"), \* LeakBox::leak(i!($))
  M(12, "mv", 0, "none"),  \* u(&LeakBox::take(i!($)))
  M(12, "sh", 11, "ref"),  \* &*$
  M(12, "ex", 10, "ref"),  \* &mut *$
  M(12, "sh", 11, "ref"),  \* AsRef::<u32>::as_ref(&$)
  M(12, "ex", 10, "ref"),  \* AsMut::<u32>::as_mut(&mut $)
  M(12, "st", 36, "same"), \* LeakBox::into_pin(i!($))
  M(13, "mv", 12, "same"), \* LeakBox::write(i!($), 1u32)
  M(13, "mv", 10, "same"), \* LeakBox::leak(i!($))
  M(13, "ex", 10, "ref"),  \* &mut *$
  M(14, "mv", 30, "same"), \* LeakBox::leak(i!($))
  M(14, "ex", 30, "ref"),  \* &mut *$
  M(14, "sh", 11, "ref"),  \* &*$
  M(15, "sh", 0, "none"),  \* u(&$.ptr)
  M(16, "ex", 16, "same"), \* $.split_at_byte(4).unwrap()
  M(16, "ex", 18, "same"), \* $.split_cast::<u32>().unwrap()
  M(16, "ex", 17, "same"), \* $.split_slice::<u32>().unwrap()
  M(16, "ex", 16, "same"), \* $.split_layout(layout()).unwrap()
  M(16, "ex", 16, "same"), \* $.split_to_fit()
  M(16, "mv", 18, "same"), \* i!($).cast::<u32>().ok().unwrap()
  M(16, "mv", 17, "same"), \* i!($).cast_slice::<u32>().ok().unwrap()
  M(16, "sh", 42, "ref"),  \* $.borrow()
  M(16, "mv", 42, "same"), \* UninitView::from(i!($))
  M(16, "sh", 0, "none"),  \* u(&($.fits(layout()), $.size(), $.byte_capacity()))
  M(16, "ex", 16, "ref"),  \* $.borrow_mut()
  M(16, "mv", 23, "same"), \* Rc::new(1u32, i!($))
  M(16, "mv", 21, "same"), \* FixedVec::<u32>::from_unaligned(i!($))
  M(17, "ex", 17, "same"), \* $.split_at(1).unwrap()
  M(17, "ex", 18, "same"), \* $.split_first().unwrap()
  M(17, "ex", 18, "same"), \* $.split_last().unwrap()
  M(17, "ex", 16, "same"), \* $.shrink_to_fit()
  M(17, "mv", 30, "same"), \* i!($).into_maybe_uninit_slice()
  M(17, "mv", 21, "same"), \* FixedVec::new(i!($))
  M(17, "sh", 38, "ref"),  \* $.borrow()
  M(17, "ex", 17, "ref"),  \* $.borrow_mut()
  M(17, "mv", 16, "same"), \* i!($).as_memory()
  M(18, "mv", 10, "same"), \* i!($).init(1u32)
  M(18, "mv", 20, "same"), \* i!($).into_box(1u32)
  M(18, "mv", 20, "same"), \* Box::new(1u32, i!($))
  M(18, "mv", 10, "same"), \* i!($).into_maybe_uninit()
  M(18, "mv", 16, "same"), \* i!($).as_memory()
  M(18, "ex", 18, "ref"),  \* $.borrow_mut()
  M(18, "sh", 19, "ref"),  \* $.borrow()
  M(18, "mv", 19, "same"), \* UninitView::from(i!($))
  M(18, "ex", 16, "same"), \* $.split_to_fit()
  M(18, "ex", 16, "same"), \* $.split_at_byte(2).unwrap()
  M(18, "mv", 39, "same"), \* old_unsize!(i!($), dyn Debug)
  M(18, "mv", 18, "same"), \* i!($).cast::<u32>().ok().unwrap()
  M(18, "mv", 17, "same"), \* i!($).cast_slice::<u32>().ok().unwrap()
  M(18, "mv", 21, "same"), \* FixedVec::<u32>::from_unaligned(i!($))
  M(19, "ex", 42, "same"), \* $.split_to_fit()
  M(19, "ex", 42, "same"), \* $.split_at_byte(2).unwrap()
  M(19, "sh", 11, "same"), \* $.into_maybe_uninit()
  M(19, "sh", 38, "same"), \* $.cast_slice::<u32>().ok().unwrap()
  M(19, "sh", 19, "same"), \* $.cast::<u32>().ok().unwrap()
  M(42, "ex", 42, "same"), \* $.split_layout(layout()).unwrap()
  M(42, "ex", 42, "same"), \* $.split_at_byte(4).unwrap()
  M(42, "ex", 42, "same"), \* $.split_to_fit()
  M(42, "ex", 19, "same"), \* $.split_cast::<u32>().unwrap()
  M(42, "ex", 38, "same"), \* $.split_slice::<u32>().unwrap()
  M(42, "sh", 19, "same"), \* $.cast::<u32>().ok().unwrap()
  M(42, "sh", 38, "same"), \* $.cast_slice::<u32>().ok().unwrap()
  M(20, "mv", 10, "same"), \* Box::leak(i!($))
  M(20, "mv", 18, "same"), \* Box::take(i!($)).1
  M(20, "mv", 18, "same"), \* Box::into_raw(i!($))
  M(20, "sh", 11, "ref"),  \* &*$
  M(20, "ex", 10, "ref"),  \* &mut *$
  M(20, "sh", 11, "ref"),  \* Borrow::<u32>::borrow(&$)
  M(20, "ex", 10, "ref"),  \* BorrowMut::<u32>::borrow_mut(&mut $)
  M(20, "sh", 11, "ref"),  \* AsRef::<u32>::as_ref(&$)
  M(20, "ex", 10, "ref"),  \* AsMut::<u32>::as_mut(&mut $)
  M(20, "mv", 29, "same"), \* old_unsize!(i!($), dyn Debug)
  M(21, "ex", 0, "none"),  \* u(&$.push(1))
  M(21, "ex", 0, "none"),  \* u(&$.pop())
  M(21, "ex", 0, "none"),  \* u(&$.fill(core::iter::once(1)))
  M(21, "ex", 0, "none"),  \* $.extend([1u32])
  M(21, "ex", 0, "none"),  \* $.truncate(1)
  M(21, "ex", 0, "none"),  \* $.clear()
  M(21, "sh", 0, "none"),  \* u(&$.len())
  M(21, "sh", 11, "ref"),  \* $.as_slice()
  M(21, "ex", 40, "ref"),  \* $.as_mut_slice()
  M(21, "sh", 11, "ref"),  \* &*$
  M(21, "ex", 40, "ref"),  \* &mut *$
  M(21, "sh", 11, "ref"),  \* &$[0]
  M(21, "ex", 10, "ref"),  \* &mut $[0]
  M(21, "sh", 11, "ref"),  \* Borrow::<[u32]>::borrow(&$)
  M(21, "ex", 40, "ref"),  \* BorrowMut::<[u32]>::borrow_mut(&mut $)
  M(21, "sh", 11, "ref"),  \* AsRef::<[u32]>::as_ref(&$)
  M(21, "ex", 40, "ref"),  \* AsMut::<[u32]>::as_mut(&mut $)
  M(21, "ex", 22, "ref"),  \* $.drain(..)
  M(21, "ex", 21, "ref"),  \* $.split_borrowed(1)
  M(21, "ex", 21, "same"), \* $.split_and_shrink_to(1)
  M(21, "ex", 16, "same"), \* $.shrink_to_fit()
  M(22, "ex", 0, "none"),  \* u(&$.next())
  M(22, "ex", 0, "none"),  \* u(&$.next_back())
  M(22, "sh", 11, "ref"),  \* $.as_slice()
  M(22, "ex", 40, "ref"),  \* $.as_mut_slice()
  M(23, "sh", 23, "same"), \* $.clone()
  M(23, "sh", 24, "same"), \* Rc::downgrade(&$)
  M(23, "sh", 11, "ref"),  \* &*$
  M(23, "sh", 11, "ref"),  \* Borrow::<u32>::borrow(&$)
  M(23, "sh", 11, "ref"),  \* AsRef::<u32>::as_ref(&$)
  M(23, "ex", 10, "ref"),  \* Rc::get_mut(&mut $).unwrap()
  M(23, "mv", 24, "same"), \* Rc::try_unwrap(i!($)).ok().unwrap().1
  M(23, "mv", 18, "same"), \* Rc::into_raw(i!($)).ok().unwrap()
  M(24, "sh", 23, "same"), \* $.upgrade().unwrap()
  M(24, "sh", 24, "same"), \* $.clone()
  M(24, "mv", 16, "same"), \* i!($).try_unwrap().ok().unwrap()
  M(24, "sh", 0, "none"),  \* u(&$.strong_count())
  M(25, "sh", 13, "ref"),  \* $.bump_box::<u32>().ok().unwrap()
  M(25, "sh", 14, "ref"),  \* $.bump_array::<u32>(1).ok().unwrap()
  M(25, "sh", 15, "ref"),  \* $.get::<u32>().unwrap()
  M(25, "ex", 0, "none"),  \* $.reset()
  M(25, "mv", 37, "same"), \* MemBump::into_mem(i!($))
  M(26, "mv", 27, "same"), \* i!($).pin(1)
  M(27, "mv", 34, "same"), \* new_unsize!(i!($), dyn Debug)
  M(27, "ex", 27, "ref"),  \* $.as_mut()
  M(28, "sh", 10, "same"), \* $.leak(1u32).ok().unwrap()
  M(28, "sh", 12, "same"), \* $.leak_box(1u32).unwrap()
  M(28, "sh", 15, "same"), \* $.get::<u32>().unwrap()
  M(28, "sh", 20, "same"), \* $.boxed(1u32).unwrap()
  M(28, "sh", 21, "same"), \* $.fixed_vec::<u32>(2).unwrap()
  M(28, "sh", 23, "same"), \* $.rc(1u32).unwrap()
  M(28, "sh", 11, "same"), \* $.copy_str("a").unwrap()
  M(28, "sh", 32, "same"), \* $.alloc_layout(nonzero()).unwrap()
  M(30, "ex", 17, "ref"),  \* Uninit::from_maybe_uninit_slice(&mut *$)
  M(30, "mv", 14, "same"), \* LeakBox::from(i!($))
  M(30, "mv", 17, "same"), \* Uninit::from(i!($))
  M(32, "mv", 16, "same"), \* i!($).uninit
  M(35, "sh", 0, "none"),  \* $.run(|s| s.len())
  M(35, "nv", 10, "ref"),  \* { let mut e = None; $.run(|s| { e = Some(s); }); e.unwrap() }
  M(36, "ex", 27, "ref"),  \* $.as_mut()
  M(37, "ex", 25, "ref"),  \* MemBump::from_mem(&mut *$).ok().unwrap()
  M(37, "mv", 25, "same"), \* MemBump::from_mem(i!($)).ok().unwrap()
  M(38, "ex", 38, "same"), \* $.split_at(1).unwrap()
  M(38, "ex", 19, "same"), \* $.split_first().unwrap()
  M(38, "ex", 19, "same"), \* $.split_last().unwrap()
  M(38, "ex", 42, "same"), \* $.shrink_to_fit()
  M(38, "sh", 11, "same"), \* $.into_maybe_uninit_slice()
  M(40, "ex", 40, "ref"),  \* &mut $[..1]
  M(40, "ex", 10, "ref"),  \* &mut $[0]
  M(3, "ab", 0, "none"),  \* dup(&$)
  M(4, "ab", 0, "none"),  \* dup(&$)
  M(8, "ab", 0, "none"),  \* dup(&$)
  M(12, "ab", 0, "none"),  \* dup(&$)
  M(13, "ab", 0, "none"),  \* dup(&$)
  M(14, "ab", 0, "none"),  \* dup(&$)
  M(16, "ab", 0, "none"),  \* dup(&$)
  M(17, "ab", 0, "none"),  \* dup(&$)
  M(18, "ab", 0, "none"),  \* dup(&$)
  M(20, "ab", 0, "none"),  \* dup(&$)
  M(21, "ab", 0, "none"),  \* dup(&$)
  M(22, "ab", 0, "none"),  \* dup(&$)
  M(25, "ab", 0, "none"),  \* dup(&$)
  M(26, "ab", 0, "none"),  \* dup(&$)
  M(29, "ab", 0, "none"),  \* dup(&$)
  M(32, "ab", 0, "none"),  \* dup(&$)
  M(36, "ab", 0, "none"),  \* dup(&$)
  M(39, "ab", 0, "none"),  \* dup(&$)
  M(41, "ex", 0, "none"),  \* *LeakBox::from_mut(&mut $) = "b"
  M(41, "nv", 0, "none"),  \* { let t = String::new(); let mut b: LeakBox<'_, &str> = LeakBox::from_mut(&mut $); *b = &t; }
  M(41, "nv", 0, "none"),  \* { let t = String::new(); let b = LeakBox::from_mut(&mut $); let r: &mut &str = LeakBox::leak(b); *r = &t; }
  M(1, "nv", 0, "none"),   \* { let b; let t = 1u32; b = $.leak_box(Peek(&t)).unwrap(); }
  M(1, "nv", 0, "none"),   \* { let b; let t = 1u32; b = $.boxed(Peek(&t)).unwrap(); }
  M(1, "nv", 0, "none"),   \* { let b; let t = 1u32; b = $.rc(Peek(&t)).unwrap(); }
  M(1, "nv", 0, "none"),   \* { let b; let t = 1u32; b = Rc::downgrade(&$.rc(Peek(&t)).unwrap()); u(&b.upgrade()); drop(t); u(&b); }
  M(1, "nv", 0, "none"),   \* { let mut b; let t = 1u32; b = $.fixed_vec(2).unwrap(); u(&b.push(Peek(&t)).is_ok()); }
  M(1, "nv", 0, "none"),   \* { let b; { let t = 1u32; b = $.leak(Peek(&t)).ok().unwrap(); } u(b); }
  M(1, "nv", 0, "none"),   \* { let b; { let t = 1u32; b = $.copy_slice(&[&t]).unwrap(); } u(b); }
  M(1, "sh", 0, "none"),   \* { let t = 1u32; u(&$.leak_box(Peek(&t))); u(&$.boxed(Peek(&t))); u(&$.rc(Peek(&t))); u(&$.leak(Peek(&t)).is_ok()); u(&$.copy_slice(&[&t])); }
  M(7, "nv", 0, "none"),   \* { let b: Std<dyn Debug>; { let t = $; b = new_unsize!(Std::new(&t), dyn Debug); } u(&b); }
  M(7, "nv", 0, "none"),   \* { let b: &dyn Debug; { let t = $; b = old_unsize!(&t, dyn Debug); } u(b); }
  M(7, "nv", 0, "none"),   \* { let t = $; let b: Std<dyn core::any::Any> = new_unsize!(Std::new(&t), dyn Any); }
  M(7, "nv", 0, "none"),   \* { let t = $; let b: Std<dyn core::any::Any> = unsize::CoerceUnsized::unsize(Std::new(&t), unsize::Coercion::to_any()); }
  M(7, "nv", 0, "none"),   \* { let b: Std<dyn Debug>; { let t = $; b = unsize::CoerceUnsized::unsize(Std::new(&t), unsize::Coercion::to_debug()); } u(&b); }
  M(7, "sh", 0, "none"),   \* { let t = $; let b: Std<dyn Debug + '_> = new_unsize!(Std::new(&t), dyn Debug); u(&b); }
  M(7, "sh", 0, "none")    \* { let b: Std<dyn core::any::Any> = unsize::CoerceUnsized::unsize(Std::new($), unsize::Coercion::to_any()); u(&b); }
>>

VARIABLES ob,   \* objects: kind, whose loan (0: none), shared or exclusive, state
          bad,  \* something was used that was gone
          by,   \* history: what was called last, what the objects came from (for the compiler programs
                \* that do the same with different methods are different ones), and which are of interest
          obs
vars == <<ob, bad, by, obs>>
View == <<ob, bad, by>>
\* kept: it was given to something that keeps it forever
Obj(k, p, m) == [k |-> k, p |-> p, m |-> m, st |-> "ok", kept |-> FALSE]
\* cfg = <<kind of the variable the program begins with, methods that were called on each thing's result>>
From(x, y, i) == IF Meth[y].l = "ref" THEN Obj(Meth[y].k, i, IF Meth[y].a = "sh" THEN "sh" ELSE "ex") ELSE Obj(Meth[y].k, x.p, x.m)
\* calls of interest are those on the last one, and on what comes from it
RECURSIVE Made(_, _)
Made(S, ys) == IF ys = <<>> THEN S
               ELSE LET y == Head(ys) i == Len(S)
                        T == IF Meth[y].a = "mv" /\ S[i].k \notin Copied THEN [S EXCEPT ![i].st = "moved"] ELSE S IN
                    Made(Append(T, From(S[i], y, i)), Tail(ys))
InitC(c) == /\ ob = Made(<<Obj(c[1], 0, "sh")>>, Tail(c))
            /\ by = [last |-> 0, from |-> Len(c), ms |-> Tail(c)]
            /\ bad = FALSE /\ obs = Obs0

RECURSIVE Below(_)
Below(S) == LET T == S \cup {i \in 1..Len(ob) : ob[i].p \in S} IN IF T = S THEN S ELSE Below(T)
\* what ends when x is accessed: loans that do not go together with the access, and what they were lent to
Ended(x, a) == Below({i \in 1..Len(ob) : ob[i].p = x /\ (a # "sh" \/ ob[i].m = "ex")})
After(x, a, kept) == [i \in 1..Len(ob) |-> IF i \in Ended(x, a) /\ ob[i].st = "ok" THEN [ob[i] EXCEPT !.st = "dead"]
                                           ELSE IF i = x THEN [ob[i] EXCEPT !.st = IF a \in {"mv", "st"} THEN "moved" ELSE @, !.kept = @ \/ kept]
                                           ELSE ob[i]]
\* references can be lent on for as long as they are valid themselves, everything else as long as it is there
Refs == {10, 30, 37, 40}
RECURSIVE Forever(_)
Forever(x) == ob[x].p = 0 \/ (ob[ob[x].p].k \in Refs /\ Forever(ob[x].p))
Touch(x, a) == /\ bad' = (bad \/ ob[x].st # "ok" \/ a \in {"nv", "ab"} \/ (a = "st" /\ ~Forever(x)) \/ \E i \in Ended(x, a) : ob[i].kept)
               /\ obs' = Obs0
\* what is done with a copy is done with the copy
As(x, a) == IF a \in {"mv", "st"} /\ ob[x].k \in Copied THEN "sh" ELSE a
Call(x, y) ==
  LET q == Meth[y] new == IF q.k = 0 THEN <<>> ELSE <<From(ob[x], y, x)>> IN
  /\ Touch(x, q.a)
  /\ ob' = After(x, As(x, q.a), q.a = "st") \o new
  /\ by' = IF q.k = 0 THEN [by EXCEPT !.last = y] ELSE [by EXCEPT !.last = 0, !.ms = Append(@, y)]
Other(x, a, m) == Touch(x, a) /\ ob' = After(x, As(x, a), m) /\ by' = [by EXCEPT !.last = 0]

Apply(o) == CASE o.a = "call" -> Call(o.x, o.y)
              \* seen once more
              [] o.a = "use" -> Other(o.x, "sh", FALSE)
              \* given away
              [] o.a = "give" -> Other(o.x, "mv", FALSE)
              \* given to something that keeps it forever
              [] o.a = "keep" -> Other(o.x, "st", TRUE)
\* values are destroyed at the end
Harm == bad \/ \E i \in 1..Len(ob) : ob[i].k \in Glue /\ ob[i].st = "dead"
Ops == IF Harm THEN {}
       ELSE {Op(a, x, 0, 0) : a \in {"use", "give", "keep"}, x \in 1..Len(ob)}
            \cup {Op("call", p[1], p[2], 0) : p \in {p \in (by.from..Len(ob)) \X (1..Len(Meth)) :
                    Meth[p[2]].r = ob[p[1]].k /\ Meth[p[2]].r \in Roots /\ (Meth[p[2]].k = 0 \/ Len(ob) < MaxObj)}}

Live(i) == ob[i].st = "ok"
\* As long as no harm was done: no lender of a usable object is lost, and of two objects that borrow
\* from the same one, both can be used only if both were lent together.
Inv == ~Harm => \A i \in 1..Len(ob) : Live(i) =>
         /\ ob[i].p = 0 \/ ob[ob[i].p].st = "ok"
         /\ ob[i].p < i
\* r: acc, rej or typ, the verdict of the compiler on the whole program, with the last event: accepted,
\* or refused because of a loan, or because of a type
Accept(o, g) == IF o.a = "end" THEN /\ UNCHANGED <<ob, bad, by>> /\ obs' = g
                                    /\ g.r = IF ~Harm THEN "acc" ELSE IF by.last # 0 /\ Meth[by.last].a = "ab" THEN "typ" ELSE "rej"
                ELSE Apply(o)
=============================================================================
