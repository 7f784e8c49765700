#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Run by hand when a property changes.
import json, os
D='include/boost/coroutine2/detail/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
        why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
PULL=D+'pull_coroutine.ipp'; PUSH=D+'push_coroutine.ipp'; PCB=D+'pull_control_block_cc.ipp'; SCB=D+'push_control_block_cc.ipp'
PULLH=D+'pull_coroutine.hpp'; PUSHH=D+'push_coroutine.hpp'; CRE=D+'create_control_block.ipp'; WRAP=D+'wrap.hpp'; STATE=D+'state.hpp'

p('C01','A pull coroutine delivers every value sent, once, unaltered and in order',
 'For a pull_type<T>, the k-th value the coroutine-function passes to its sink is exactly what get() returns after the (k-1)-th resumption, for every T (scalars, class types with their own copy/move, move-only and over-aligned types), every payload, every number of values, and whether the value is sent as an lvalue or an rvalue. No value is lost, duplicated, reordered or altered, and sending an lvalue leaves the sender\'s object unchanged.',
 ['inputs','histories','configurations'],'all payload bit patterns, all numbers of transfers, all mixes of lvalue/rvalue sends, all language modes (C++11 wrapper path, C++14/17 lambda path)',
 'test_coroutine.cpp sends the constants 3,7 and "abc","xyz" once; it fixes payload, count, type and lvalue-ness.',
 [PCB,SCB,PULL,PUSH],[('push_coroutine<T>::control_block::resume(T const&)/(T&&) stores into the puller\'s control block before switching',SCB),('pull_coroutine<T>::control_block::set/get',PCB)],
 [('storage/bvalid','the value slot of the pulling side',D+'pull_control_block_cc.hpp')],['pull_type::get','push_type::operator()'])
p('C02','A push coroutine delivers every value sent, once, unaltered and in order',
 'For a push_type<T>, the k-th value the caller passes to operator() is exactly what the coroutine-function reads with get() before it next suspends, for every T, every payload, every number of values, lvalue or rvalue. No value is lost, duplicated, reordered or altered, and sending an lvalue leaves the caller\'s object unchanged.',
 ['inputs','histories','configurations'],'all payload bit patterns, numbers of transfers, lvalue/rvalue mixes, language modes',
 'The tests push one or two constants per type.',
 [PCB,SCB,PULL,PUSH],[('push_coroutine<T>::control_block::resume',SCB),('pull_coroutine<T>::control_block::set/get',PCB)],
 [('storage/bvalid','value slot in the synthesized pull control block',D+'pull_control_block_cc.hpp')],['push_type::operator()','pull_type::get'])
p('C03','Reference coroutines transfer the identity of the object',
 'With coroutine<T&> (and T const&), get() and iterator dereference on the receiving side yield a reference to the very object the sender passed in that transfer: same address, with writes on either side visible on the other, and no copy of the object is made. This holds for both directions and after any number of earlier transfers.',
 ['inputs','histories','configurations'],'every choice of object per transfer, every number of transfers, both directions, every payload written through the reference, language modes',
 'The tests compare the address for a single transfer (three for iteration) of ints.',
 [PCB,SCB,PULL,PUSH],[('holder stored in the reference specialisation',D+'pull_control_block_cc.hpp'),('pull_coroutine<T&>::control_block::set/get',PCB)],(),['pull_type<T&>::get','pull_type<T&>::iterator'])
p('C04','Control alternates strictly and resumes exactly where it suspended',
 'A pull_type enters its coroutine-function during construction; a push_type enters it on the first operator() call and not before. Every operator() call transfers control to exactly the point where the other side last suspended (also from nested call frames) and returns when the other side next suspends or finishes, so the two sides alternate strictly and no local state is lost. operator() returns a reference to the coroutine it was called on.',
 ['histories','inputs','configurations'],'every number of switches, every call depth and recursion shape of the suspending code, every local-variable content, value/reference/void kinds, both directions, language modes',
 'The tests run straight-line coroutine-functions with at most a handful of switches.',
 [PCB,SCB,PULL,PUSH],[('c = std::move(c).resume()',PCB),('c = std::move(c).resume()',SCB),('initial resume in the control-block constructors',SCB)],
 [('c','the suspended context of the other side',PCB)],['order of observable events on both sides'])
p('C05','operator bool tells exactly whether the coroutine can still be used',
 'operator bool is true exactly when the object refers to a coroutine (not moved-from) whose coroutine-function has not finished, and for a non-void pull_type also means a value is available; operator! is always its negation. In particular it is false right after construction of a pull_type whose function finished without sending, right after the resumption in which the function returned or threw, and it never changes without an operation on that coroutine.',
 ['histories','configurations'],'every history of construct/resume/finish/throw/move for both directions and value/reference/void kinds',
 'The tests look at operator bool in a few fixed histories, never after an exception and almost never operator!.',
 [PULL,PUSH,PCB,SCB,STATE],[('valid()',PCB),('valid()',SCB),('state_t::complete set when the function ends',PCB)],
 [('state','complete/unwind/destroy flags',STATE)],['operator bool','operator!'])
p('C06','An exception leaving the coroutine-function reaches exactly its resumer',
 'If the coroutine-function exits by an exception, that same exception (type and contents) is thrown out of the very call that last resumed it: the pull_type constructor if it had not yet sent a value, otherwise the operator() (or iterator increment/assignment) in progress. It is thrown exactly once, only there, and afterwards the coroutine is complete; no other operation throws it, and a coroutine-function that catches its own exceptions causes none.',
 ['fault_sequences','inputs','histories','configurations'],'every point at which the function throws, every exception type (scalar, class, derived-from-std::exception) and payload, both directions, value/reference/void, language modes',
 'One test throws std::runtime_error from a push_type<void> before its first suspension.',
 [PCB,SCB],[('catch(...) { except = std::current_exception(); }',PCB),('rethrow in resume() and the pull constructor',PCB),('rethrow in resume()',SCB)],
 [('except','captured exception',PCB)],['exceptions from operator() and constructors'])
p('C07','Destroying an unfinished coroutine unwinds its stack exactly once',
 'Destroying (or assigning over) a coroutine that is suspended runs the destructors of all live automatic objects of the coroutine-function, at every call depth, exactly once and in reverse order of construction; no code after the suspension point runs except destructors and handlers that rethrow. A push_type never resumed is destroyed without ever entering its function, and destroying a finished coroutine unwinds nothing further.',
 ['crash_points','histories','configurations'],'every suspension point at which the owner destroys the coroutine, every number of live locals and call depth, both directions, value/reference/void kinds, pending values, language modes',
 'test_unwind destroys with one local object at one suspension point for void coroutines.',
 [PCB,SCB,PULL,PUSH],[('control_block::destroy/deallocate',PCB),('control_block::destroy/deallocate',SCB),('forced_unwind is rethrown, not captured',PCB)],
 [('state_t::unwind','this control block owns the stack',STATE)],['destructor order log'])
p('C08','Each coroutine takes one stack and gives exactly that stack back once',
 'Constructing a coroutine calls allocate() of the supplied stack allocator (or of the default one when none is supplied) exactly once; the same stack is handed to deallocate() of that allocator (or a copy of it) exactly once, after everything living on that stack is destroyed. This holds on every history: normal completion, destruction at any point, never resumed, moved and assigned-over coroutines, exceptions thrown by the function, and an exception thrown while the callable passed by the user is copied; when allocate() throws, the exception reaches the caller and nothing is deallocated.',
 ['histories','fault_sequences','configurations'],'every history of the coroutine, every stack size and allocator state, every throwing step, both directions, language modes',
 'No test supplies a stack allocator or observes stack release.',
 [CRE,PCB,SCB,PULL,PUSH],[('salloc.allocate() and hand-over to the fiber via context::preallocated',CRE),('destroy() moves the fiber out before destroying the control block',PCB)],
 (),['allocate/deallocate of a user allocator','malloc/free'])
p('C09','Values in transit are constructed and destroyed exactly once',
 'Every value object the library creates while transferring data is destroyed exactly once and never used outside its lifetime: overwritten by the next transfer, left unread, pending when the coroutine is destroyed or finishes, or when a copy/move constructor of the value throws in the middle of a transfer (the exception reaches the sender and the coroutine stays usable for further transfers or destruction).',
 ['histories','fault_sequences','configurations'],'every transfer history including unread and pending values, every transfer at which the value copy/move throws, both directions, language modes',
 'The tests use types without observable lifetime except movedata, and no throwing copy.',
 [PCB,SCB],[('pull_coroutine<T>::control_block::set destroys the previous value',PCB),('~control_block destroys a pending value',PCB)],
 [('bvalid','slot holds a live object',PCB)],['constructor/destructor balance of T'])
p('C10','Moving transfers the coroutine and leaves the source empty',
 'Move construction and move assignment transfer the running coroutine: the target continues exactly where the source was, with its pending value and validity, and the source becomes not-a-coroutine. Move assignment first destroys (unwinds and releases) the coroutine previously held by the target; self-move leaves a coroutine unchanged; moving never runs or switches to the moved coroutine. Moves are non-throwing operations (containers rely on it) and coroutines cannot be copied.',
 ['histories','configurations'],'every sequence of moves, self-moves and assignments over empty, suspended and finished coroutines between resumptions, both directions, value/reference/void',
 'test_move does one assignment onto an already finished pull_type<int>.',
 [PULL,PUSH,PULLH,PUSHH],[('move constructor swaps into an empty object',PULL),('operator=(&&)',PULLH),('operator=(&&)',PUSHH)],
 [('cb_','the owned control block, null when not-a-coroutine',PULLH)],['operator bool, get and destructor logs after moves'])
p('C11','Input iterators visit exactly the sequence of values produced',
 'Iterating a pull_type with begin()/end() (members, free functions or range-for; pre- or post-increment) yields exactly the values the coroutine-function sends, in order, starting with the value already pending, and reaches end() exactly when the coroutine is finished, including an empty sequence. Dereference and operator-> refer to the current value without consuming it, and an increment resumes the coroutine exactly once.',
 ['histories','inputs','configurations'],'every sequence length and payload, every mix of dereference/arrow/pre/post increment, starting at any position, value and reference kinds',
 'The tests iterate a fixed five-element sequence of ints with pre-increment.',
 [PULLH,PULL],[('iterator::fetch_/increment_',PULLH),('begin/end',PULLH)],[('c_','null for the end iterator',PULLH)],['iterator operations'])
p('C12','Output iterators send each assigned value once and detect completion',
 'Assigning through an iterator obtained from begin() of a push_type sends exactly that value to the coroutine-function, once per assignment; dereference and increment send nothing. The iterator compares equal to end() exactly when the coroutine has finished, both when first obtained and after each assignment.',
 ['histories','inputs','configurations'],'every number of assignments and payload, every completion point, iterators obtained before and after completion, value and reference kinds',
 'One test assigns 1..5 with completion at one point and never takes begin() of a finished coroutine.',
 [PUSHH],[('push_coroutine::iterator::operator=',PUSHH),('begin/end',PUSHH)],[('c_','null for the end iterator',PUSHH)],['iterator operations'])
p('C13','Bookkeeping placed on the coroutine stack is aligned and in bounds',
 'Whatever address and size the stack allocator returns, everything the library places on the stack (control data, value slot, callable) lies inside the allocated region, is aligned for its type including over-aligned value types, and does not overlap other such objects or the region handed to the coroutine as its run-time stack, which itself lies inside the allocation.',
 ['inputs','configurations'],'all stack base addresses (every misalignment) and sizes, all value-type sizes and alignments within the stated bound, both directions',
 'The tests only use malloc-ed default stacks and small types, where 16-byte alignment hides arithmetic errors.',
 [CRE],[('std::align computation in create_control_block',CRE)],(),['addresses of T and callable objects, arguments of make_fcontext'])
p('C14','Coroutines nest, chain and interleave without disturbing each other',
 'Any number of coroutines may be alive and be resumed in any order, also from inside other coroutine-functions: suspending always returns to whoever resumed that coroutine most recently (not to its creator), and operations on one coroutine never change the values, validity, progress or pending exceptions of another.',
 ['schedules','histories'],'every interleaving of resumptions of the live coroutines from the main context and from inside one another, both directions mixed',
 'test_chaining resumes one child from outside the parent that created it in one fixed order.',
 [PCB,SCB],[('the synthesized side re-captures its resumer on every switch (c = std::move(c).resume())',SCB),('other->c used for the final jump',PCB)],[('other','peer control block',PCB)],['event order across coroutines'])
p('C15','Switching leaves the exception-handling state of each side consistent',
 'Coroutine operations leave std::current_exception() and std::uncaught_exceptions() of the calling context as they were: after an exception from a coroutine has been handled nothing stays in flight, the exception object is destroyed once no one refers to it, and the internal unwinding exception is never visible to the code that destroys a coroutine nor stored as its result, even when the destruction happens during another exception\'s unwinding or inside a handler of the owner (a coroutine-function that suspends inside its own handler is outside this property).',
 ['fault_sequences','histories','configurations'],'every combination of throw point, handler context of the caller (none, inside catch, during unwinding) and destruction point',
 'No test operates a coroutine inside a handler or during unwinding, or looks at the exception state afterwards.',
 [PCB,SCB],[('final jump happens outside the handler',PCB),('forced_unwind/abi::__forced_unwind rethrown before catch(...)',PCB)],(),['std::current_exception','std::uncaught_exceptions','exception object lifetime'])
p('C16','The callable is taken by value, run once, and destroyed exactly once',
 'A coroutine built from an lvalue callable copies it and leaves the original unchanged; from an rvalue it moves it (move-only callables included); function references and const callables work too. The stored callable is invoked at most once, with its captured state intact, and every copy the library makes is destroyed exactly once on every history.',
 ['inputs','histories','configurations'],'every callable kind (function, function object lvalue/const/rvalue, move-only), every captured payload, every history, language modes',
 'test_move copies a functor whose move equals its copy, so a move from an lvalue goes unnoticed.',
 [WRAP,PCB,SCB,CRE],[('lambda init-capture fn_=std::forward<Fn>(fn)',PCB),('wrap()/wrapper for C++11',WRAP)],(),['copy/move/destroy log of the callable'])
p('C17','The shipped stack allocators and their sizes are honoured',
 'A coroutine constructed with fixedsize_stack, pooled_fixedsize_stack or protected_fixedsize_stack behaves the same as with the default stack, obtains its memory from that allocator with the size requested by the user, keeps everything it places there inside that memory, and returns all of it.',
 ['inputs','histories','configurations'],'every requested size in the stated range, every destruction point, each shipped allocator, both directions',
 'The tests never name a stack allocator.',
 ['include/boost/coroutine2/fixedsize_stack.hpp','include/boost/coroutine2/pooled_fixedsize_stack.hpp','include/boost/coroutine2/protected_fixedsize_stack.hpp',CRE,PULL,PUSH],[('allocator-taking constructors forward the allocator',PULL),('default_stack() in the one-argument constructors',PULL)],(),['malloc/mmap sizes, free/munmap'])
p('C18','Reading a received value does not consume it for copyable types',
 'For a copyable value type, get() may be called repeatedly between two resumptions and returns the same value each time; the documentation restricts a single call only for move-only types.',
 ['inputs','histories','configurations'],'every payload and number of reads, value types with and without a destructive move',
 'The tests call get() once per transfer.',
 [PULL],[('get() returns std::move of the slot',PULL)],(),['pull_type::get'])
p('C19','A suspended coroutine may be resumed or destroyed on another thread',
 'A coroutine carries no thread affinity: a suspended coroutine may be moved to, resumed, read, and destroyed on a thread other than the one that created it, with the same values, exceptions, unwinding and resource release, and without disturbing the exception state of the other threads.',
 ['schedules','histories','configurations'],'every assignment of operations to threads (one thread operating at a time), every throw/destroy point',
 'The tests are single-threaded.',
 [PCB,SCB,PULL,PUSH],[('no thread-local or thread-bound state in the control blocks',PCB)],(),['values, exceptions and logs when operations run on different threads'])
p('C20','Callee-saved machine state survives a context switch',
 'Values held in callee-saved integer and floating-point registers and the floating-point control words are preserved across operator() on both sides, as the platform ABI requires.',
 ['schedules','configurations'],'every register content at every switch',
 'test_fp adds two doubles; it cannot enumerate register contents.',
 [PCB,SCB],[('boost::context::fiber::resume (assembly in Boost.Context)','external: libboost_context')],(),['register contents'])
p('C21','Segmented stacks grow on demand when enabled',
 'When built with segmented-stack support, a coroutine-function may use more stack than initially allocated and the stack grows on demand.',
 ['configurations','inputs'],'every call depth under -fsplit-stack',
 'No test is built with -fsplit-stack.',
 ['include/boost/coroutine2/segmented_stack.hpp'],[('segmented_stack alias and default_stack selection','include/boost/coroutine2/segmented_stack.hpp')],(),['stack depth'])
p('C22','Threads that use different coroutines do not interfere',
 'Coroutines are independent of each other across threads: several threads may create, resume, read, move and destroy different coroutines at the same time without synchronisation, because the library keeps no mutable state that is shared between coroutines unsynchronised, so every coroutine behaves as if it were used alone. A coroutine that one thread hands to another with proper synchronisation may be used there while the first thread goes on with others.',
 ['schedules','histories','inputs'],'every pair of unsynchronised threads, every sequence of operations on different coroutines, every interleaving of their memory accesses (by happens-before)',
 'The tests are single-threaded; a data race shows up only under particular interleavings and mostly not at all.',
 [PCB,SCB,CRE,PULL,PUSH],[('control blocks keep all state per coroutine',PCB),('create_control_block keeps no state',CRE)],(),['memory accesses of the threads, values, validity, exceptions'])
p('C23','A transfer makes no needless copy and allocates nothing',
 'Sending an rvalue never copies the value (it is only moved), sending an lvalue copies it exactly once, and resuming, iterating over or moving a coroutine copies nothing; reference and void coroutines copy nothing at all. No operation on a coroutine after its construction allocates memory, so a transfer costs the same each time and cannot fail for want of memory.',
 ['inputs','histories'],'every sequence of transfers in every form, every end',
 'No test counts copies or allocations.',
 [PCB,SCB,PULL,PUSH],[('set() constructs in the slot from the sent value',PCB),('resume() forwards without copying',SCB)],(),['copy counts, allocation counts'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
