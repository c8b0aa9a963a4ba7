"""Which contract files and entries decide which property."""
SAFETY_KINDS=('memory','control','arith')
# group: src, entries (None = every H_ function), opts for the engine, flags for compilation, safety: properties that own
# memory/control/arithmetic obligations of the group, loops are owned by every property of the group.
GROUPS={
 'bytes_mut': dict(src='contracts/bytes_mut.cpp',safety=['B02'],loops=['B01','B02'],
    funcs=['kio::BytesMut: every member function','std::vector<char> (libstdc++ instantiations, verified through)']),
}
PROPS={
 'B01': dict(groups=['bytes_mut'],title='FIFO byte stream'),
 'B02': dict(groups=['bytes_mut'],title='stays inside its storage'),
}
GROUPS['resp']=dict(src='contracts/resp.cpp',safety=['R01'],loops=['R01','R02','R03','R04'],
    outofline=[r'find_crlf',r'parse_double',r'is_valid_bignum',r'parse_int',r'parse_boolean',r'parse_frame_internal',r'extract_bulk_header',r'^_ZSt10from_charsI[lx]',r'FrameIterator',r'get_(simple|bulk)_payload'],
    opts={'override':[(r'find_crlf','C_find_crlf'),(r'^_ZSt10from_charsI[lx]','C_from_chars'),(r'^_ZSt10from_charsPKcS0_Rd','C_from_chars_d'),(r'12parse_double','C_parse_double'),(r'is_valid_bignum','C_is_valid_bignum'),(r'parse_frame_internal',('rec','C_parse'))]},
    funcs=['kio::resp::find_crlf','parse_int','parse_double','parse_boolean','is_valid_bignum','Parser::extract_bulk_header','Parser::parse_frame_internal','Parser::next_frame','Parser::consume','FrameIterator','get_simple_payload','get_bulk_payload'],
    entry_opts={**{e:{'override':[(r'find_crlf','C_find_crlf'),(r'parse_frame_internal','C_parse')]} for e in('H_next','H_iterate')},'H_find_crlf':{'override':[]},'H_parse_double':{'override':[(r'^_ZSt10from_charsPKcS0_Rd','C_from_chars_d')]},'H_bignum_refuse':{'override':[]},'H_bignum_accept':{'override':[]}})
PROPS.update({
 'R01': dict(groups=['resp'],title='no read outside the input'),
 'R02': dict(groups=['resp'],title='frames recognised exactly'),
 'R03': dict(groups=['resp'],title='limits enforced'),
 'R04': dict(groups=['resp'],title='children and payloads tile the parent'),
})
LOG=[r'^_ZN3kio4alog']
NOLOG=[(r'^_ZN3kio4alog','@noop')]
GROUPS['errors']=dict(src='contracts/errors.cpp',safety=['E01'],loops=['E01'],funcs=['kio::CategoryFromErrno','kio::CategoryToString','kio::Error: every member function'])
GROUPS['config']=dict(src='contracts/config.cpp',safety=['Q02'],loops=['Q02'],funcs=['kio::next_power_of_2','kio::io::WorkerConfig::check'])
GROUPS['fileid']=dict(src='contracts/fileid.cpp',safety=['K02'],loops=['K02'],outofline=LOG+[r'^_ZNSt6chrono3_V212system_clock3nowEv'],
    opts={'override':NOLOG+[(r'^_ZNSt6chrono3_V212system_clock3nowEv','C_now')]},
    funcs=['bitcask::FileID::encode','bitcask::FileID::decode','bitcask::FileIdGenerator','bitcask::file_id_compare_by_time'],
    assume=['std::chrono::system_clock::now may return any value at each call','logging has no effect on the caller'])
SHIM=['-I'+__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'contracts/shim')]
GROUPS['entry']=dict(src='contracts/entry.cpp',safety=['K01'],loops=['K01'],flags=SHIM,outofline=LOG,opts={'override':NOLOG},
    funcs=['bitcask::DataEntry::serialize','bitcask::DataEntry::deserialize','bitcask::HintEntry::serialize','bitcask::HintEntry::deserialize','bitcask::read_le'],
    assume=['struct_pack (not installed): serialize yields a non-empty byte string determined by the value; deserialize reads only the span, fails or returns a value whose own encoding is not longer than the span, and inverts serialize',
            'crc32c::Crc32c (not installed) reads only the given bytes and is a function of them','logging has no effect on the caller'])
BS='^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
GSTR=[(BS+'pLEc$','GS_plus_char'),(BS+'9push_backEc$','GS_char'),(BS+'pLEPKc$','GS_cstr'),(BS+'6appendEPKc$','GS_cstr'),(BS+'pLERKS4_$','GS_append_str'),(BS+'6appendERKS4_$','GS_append_str'),
  (BS+'6appendERKS4_mm$','GS_append_sub'),(BS+'6appendEPKcm$','GS_append_pn'),(BS+'6appendEmc$','GS_append_fill'),(BS+'C[12]ERKS4_$','GS_copy'),(BS+'C[12]EOS4_$','GS_move'),(BS+'aSEOS4_$','GS_move_assign'),
  (BS+'7reserveEm$','GS_reserve'),(BS+'C[12]Ev$','GS_init'),(BS+'D[12]Ev$','GS_destroy')]
GROUPS['prom']=dict(src='contracts/prom.cpp',safety=['M01'],loops=['M01'],outofline=LOG+[k for k,v in GSTR],opts={'override':NOLOG+GSTR},
    funcs=['kio::SanitizeLabelValue','kio::SanitizeLabelKey'],assume=['std::string appends bytes in order (sequence contract; the representation of the string under construction is abstract)'])
GROUPS['fds']=dict(src='contracts/fds.cpp',safety=['F01'],loops=['F01'],flags=SHIM,outofline=LOG,opts={'override':NOLOG+[(r'^close$','C_close')]},
    funcs=['kio::net::Socket','kio::net::FDGuard','bitcask::FileHandle','kio::File: every ownership operation'],assume=['close(2) may return anything; descriptors are numbers'])
GROUPS['routing']=dict(src='contracts/routing.cpp',safety=['W05'],loops=['W05'],flags=SHIM,outofline=LOG,opts={'override':NOLOG+[(r'^_ZSt11_Hash_bytesPKvmm$','C_hash')]},
    funcs=['kio::io::IOPool::get_worker','kio::io::IOPool::num_workers','kio::io::IOPool::get_worker_id_by_key','bitcask::BitKV::route_to_partition','bitcask::BitKV::get_partition'],
    assume=['std::hash and crc32c read only the given bytes and are functions of them'],native_libs=['-Wl,--unresolved-symbols=ignore-all'])
GROUPS['logmsg']=dict(src='contracts/logmsg.cpp',safety=['L01'],loops=['L01'],
    funcs=['kio::LogMessage: constructors, moves, setters','kio::Logger::should_log','kio::Logger::set_level'])
TOSTR='^_ZNSt7__cxx119to_stringE[ijlmxy]$'
LIBC_NET=[('^%s$'%f,'C_'+f) for f in('inet_pton','inet_ntop','getaddrinfo','freeaddrinfo','socket','setsockopt','bind','fcntl','listen','close')]+[('^__errno_location$','C_errno')]
GROUPS['net']=dict(src='contracts/net.cpp',safety=['N01'],loops=['N01'],outofline=LOG+[TOSTR,'^_ZN3kio3net15resolve_address'],entry_opts={'H_server':{'override':NOLOG+LIBC_NET+[('^_ZN3kio3net15resolve_address','C_resolve_address')]}},opts={'override':NOLOG+LIBC_NET+[(TOSTR,'C_to_string')]},
    funcs=['kio::net::resolve_address','kio::net::resolve_endpoint','kio::net::SocketAddress::populate_from_storage','kio::net::create_tcp_server_socket','kio::net::create_tcp_fd','kio::net::create_raw_socket','kio::net::set_tcp_fd_options','kio::net::set_fd_server_options','kio::net::listen_on_sock'],
    assume=['inet_pton parses exactly the text given and leaves its target alone when it fails; inet_ntop writes at most the documented 16/46 bytes (its text is abstract)','getaddrinfo returns one list whose first element is an IPv4 or IPv6 address carrying the service port','a host name contains no NUL byte','system calls may fail with any errno'])
GROUPS['worker']=dict(src='contracts/worker.cpp',safety=['W03'],loops=['W03'],flags=SHIM,outofline=LOG,opts={'override':NOLOG},native_libs=['-Wl,--unresolved-symbols=ignore-all'],native_flags=['-DVC_LONGJMP'],
    assume=['the kernel is the contract: it may answer every submission entry with any result of at least -4095 and fills completion entries as documented; liburing inline helpers are verified through, its library calls are replaced by contracts',
            'liburing 2.5 (installed) has no io_uring_prep_ftruncate: the liburing 2.6 text is used','logging has no effect on the caller','other coroutines of the worker run only at suspensions (single-threaded worker)'],
    funcs=['kio::io::Worker::async_'+f for f in 'read read_at write write_at readv writev accept connect sendmsg fallocate ftruncate poll close fsync fdatasync openat unlink_at sleep'.split()]+['kio::io::IoUringAwaitable (constructor, await_ready, await_suspend, await_resume, prep)','kio::io::Worker::process_completions (one completion)','kio::io::Worker::get_op_id / release_op_id (free id available)','kio::Task<T> promise and awaiters on these paths'])
LIBC_XFER=[('^pipe$','C_pipe'),('^pipe2$','C_pipe2'),('^fcntl$','C_fcntl'),('^fcntl64$','C_fcntl'),('^close$','C_close'),('^__errno_location$','C_errno')]
GROUPS['xfer']=dict(src='contracts/xfer.cpp',safety=['W02','W04'],loops=['W02','W04'],flags=SHIM,outofline=LOG+['^_ZN3kio2io16IoUringAwaitable.*13await_suspend'],opts={'override':NOLOG+LIBC_XFER+[('^_ZN3kio2io16IoUringAwaitable.*13await_suspend',('wrap','C_after_suspend','C_before_suspend'))]},
    native_libs=['-Wl,--unresolved-symbols=ignore-all'],native_flags=['-DVC_LONGJMP'],
    assume=['the kernel is the contract: it may answer every submission entry with any result of at least -4095 and fills completion entries as documented; liburing inline helpers are verified through, its library calls are replaced by contracts',
            'liburing 2.5 (installed) has no io_uring_prep_ftruncate: the liburing 2.6 text is used','logging has no effect on the caller','other coroutines of the worker run only at suspensions (single-threaded worker)'],
    funcs=['kio::io::Worker::async_read_exact','kio::io::Worker::async_read_exact_at','kio::io::Worker::async_write_exact','kio::io::Worker::async_write_exact_at','kio::io::Worker::async_sendfile','kio::io::SpliceAwaitable / IoUringAwaitable on these paths','kio::Task<T> promise and awaiters on these paths'])
VEC_IDS=[('^_ZNK?St6vectorImSaImEE%s'%r,c) for r,c in(('5emptyEv','C_ids_empty'),('4sizeEv','C_ids_size'),('7reserveEm','C_ids_reserve'),('4backEv','C_ids_back'),('8pop_backEv','C_ids_pop'),('9push_backE','C_ids_push'),('12emplace_backI','C_ids_push'))]
SLOTS=[('^_ZNSt6vectorIN3kio2io6Worker10io_op_dataE.*6resizeE','C_slots_resize')]
GROUPS['slots']=dict(src='contracts/slots.cpp',safety=['W01'],loops=['W01'],flags=SHIM,outofline=LOG+[r for r,c in VEC_IDS+SLOTS],opts={'override':NOLOG+VEC_IDS+SLOTS+[('^eventfd$','C_eventfd'),('^__errno_location$','C_errno')],'fp_abstract':True},
    native_libs=['-Wl,--unresolved-symbols=ignore-all'],native_flags=['-DVC_LONGJMP'],
    assume=['std::vector<uint64_t> push_back/pop_back/back/size/empty and the resize of the slot table (libstdc++): sequence contracts for one arbitrary id and one arbitrary slot','floating-point growth computation over-approximated: any value','memory is not exhausted'],
    funcs=['kio::io::Worker::Worker (slot set-up)','kio::io::Worker::get_op_id','kio::io::Worker::release_op_id'])
RESUME='^_ZNKSt(7__n4861)?16coroutine_handleIvE6resumeEv$'
EVLOOP=[('^_ZNKSt11stop_source14stop_requestedEv$','C_stop'),('^_ZNKSt10stop_token14stop_requestedEv$','C_stop'),('^_ZN3kio9MPSCQueueI.*coroutine_handleIvE.*7try_popE','C_try_pop'),(RESUME,'C_resume'),
  ('^_ZNSt6vectorIN3kio2io6Worker10io_op_dataE.*EixEm$','C_slot'),('^_ZNSt6vectorIN3kio2io6Worker10io_op_dataE.*2atEm$','C_slot'),('^_ZNKSt6vectorIN3kio2io6Worker10io_op_dataE.*EixEm$','C_slot'),('^_ZNKSt6vectorIN3kio2io6Worker10io_op_dataE.*4sizeEv$','C_slots_size'),
  ('^_ZNSt6vectorImSaImEE(9push_backE|12emplace_backI)','C_ids_push'),('^io_uring_submit$','C_submit'),('^_ZN3kio9MPSCQueueI.*coroutine_handleIvE.*8try_push[IE]','C_try_push'),('^write$','C_write'),('^__errno_location$','C_errno'),
  ('^_ZN?K?St11stop_source12request_stopEv$','C_request_stop'),('^_ZNK3kio2io6Worker19is_on_worker_threadEv$','C_on_thread'),('^io_uring_queue_init_params$','C_queue_init'),('^(pthread_setaffinity_np|io_uring_register_iowq_aff|pthread_self)$','C_any'),('^_ZNSt6thread20hardware_concurrencyEv$','C_cpus')]
GROUPS['completions']=dict(src='contracts/completions.cpp',safety=['W06'],loops=['W06'],flags=SHIM,outofline=LOG+[r for r,c in EVLOOP],opts={'override':NOLOG+EVLOOP,'lean':'all','inc_ms':1000,'assume_inv':True},entry_opts={'H_init':{'override':NOLOG+[('^io_uring_submit$','C_submit_init')]+[x for x in EVLOOP if x[1]!='C_submit']}},native_libs=['-Wl,--unresolved-symbols=ignore-all'],native_flags=['-DVC_LONGJMP'],
    assume=['the kernel reports completions of submitted operations only and advances the completion tail only','resumed coroutines may submit operations and let time pass; they do not touch the completion that is being dispatched','MPSCQueue::try_pop/try_push (Q01), std::stop_token, std::vector: contracts','eventfd counter semantics'],
    funcs=['kio::io::Worker::process_completions','kio::io::Worker::submit_wakeup_read','kio::io::Worker::release_op_id (hand-over)','kio::io::Worker::post'])
GROUPS['coro']=dict(src='contracts/coro.cpp',native_flags=['-DVC_LONGJMP'],safety=['C01','C02'],loops=['C01'],outofline=LOG+['^_ZNSt5latch10count_downE','^_ZNKSt5latch4waitE'],opts={'override':NOLOG+[('^_ZNSt5latch10count_downE','C_count_down'),('^_ZNKSt5latch4waitE','C_wait')]},
    assume=['std::latch: count_down once releases the waiter; the waiting thread is the contract'],funcs=['kio::Task<T> (value, void, move-only): promise, awaiters, moves, destructor','kio::DetachedTask','kio::SyncWait','kio::internal::sync_wait_task','kio::internal::MakeSyncAwaitTask','kio::internal::SyncWaitEvent'])
GROUPS['mpsc']=dict(src='contracts/mpsc.cpp',opts={'lean':True,'inc_ms':1000},safety=['Q01'],loops=['Q01'],native_flags=['-DVC_LONGJMP'],
    assume=['atomic variables are sequentially consistent in the value they hold (interleaving semantics); relaxed reads of the two positions may return older values; release/acquire on cell sequences is demanded, not modelled','the lemmas about the cell a position is served by are proved by H_lemma for every power of two up to 2^40 and every position below 2^62, and used as assumptions in the other entries','one consumer at a time; nobody uses a queue under destruction; moves and constructors of items do not throw','capacity is a power of two (asserted by the constructor, demanded by WorkerConfig::check)'],funcs=['kio::MPSCQueue: constructor, destructor, try_push, try_pop, capacity, size_approx'])
CLOCK=('^_ZNSt6chrono3_V212steady_clock3nowEv$','C_now')
GROUPS['datafile']=dict(src='contracts/datafile.cpp',safety=['K04'],loops=['K04'],flags=SHIM,outofline=LOG,opts={'override':NOLOG+[(r'^close$','C_close'),CLOCK]},native_libs=['-Wl,--unresolved-symbols=ignore-all'],native_flags=['-DVC_LONGJMP'],
    assume=['the worker operations (write_exact_at, fdatasync, close) keep their contracts (W02, W03)','DataEntry::serialize returns a non-empty byte string of less than 4 GiB (K01; the index stores lengths in 32 bits)','other appends to the file are appends of this same code (rely = the guarantee checked here)'],
    funcs=['bitcask::DataFile: constructor, move, async_write, async_close, should_rotate'])
PATH='^_ZNSt10filesystem7__cxx114path(C[12]|D[12]|aS)'
GROUPS['fdcache']=dict(src='contracts/fdcache.cpp',safety=['K03'],loops=['K03'],flags=SHIM,outofline=LOG+[PATH],opts={'override':NOLOG+[(r'^close$','C_close'),(PATH,'@noop')]},native_libs=['-Wl,--unresolved-symbols=ignore-all'],native_flags=['-DVC_LONGJMP'],
    assume=['std::unordered_map and std::list (libstdc++): contracts/containers.h','Worker::async_openat keeps its contract (W03); paths are opaque','a limit of at least one descriptor'],
    funcs=['bitcask::FDCache: get_or_open, touch, evict_oldest, remove, clear','bitcask::FileHandle'])
PART_PATH='^_ZNK7bitcask9Partition18get_data_file_pathB5cxx11Em$'
POOL='^_ZNSt3pmr28unsynchronized_pool_resource(C[12]|D[12])|^_ZNSt3pmr20get_default_resource'
GROUPS['partition']=dict(src='contracts/partition.cpp',safety=['K05'],loops=['K05'],flags=SHIM,outofline=LOG+[PATH,POOL,PART_PATH],opts={'override':NOLOG+[(r'^close$','C_close'),CLOCK,('^_ZNSt6chrono3_V212system_clock3nowEv$','C_now'),(PART_PATH,'C_path'),(PATH,'@noop'),(POOL,'@noop')],'fp_abstract':True},native_libs=['-Wl,--unresolved-symbols=ignore-all'],native_flags=['-DVC_LONGJMP'],
    assume=['std::unordered_map (libstdc++): contracts/containers.h','the worker operations, the descriptor cache and struct_pack keep their contracts (W02, W03, K03, K01)','a path names the file whose id it was made from','operations on the same key do not overlap, except deletes with later puts and gets with anything; nothing is appended while a file is being rotated (known findings)'],
    funcs=['bitcask::Partition: constructor, put, get, del, find_fd, async_read_entry, rotate_active_file, create_and_set_active_file, should_compact_file, signal_compaction','bitcask::DataFile','bitcask::DataEntry: constructor, serialize, deserialize','bitcask::FileIdGenerator::next'])
PROPS.update({
 'W06': dict(groups=['completions'],title='completions and posted tasks'),
 'K05': dict(groups=['partition'],title='key index'),
 'K03': dict(groups=['fdcache'],title='descriptor cache'),
 'K04': dict(groups=['datafile'],title='data file appends'),
 'Q01': dict(groups=['mpsc'],title='MPSC queue'),
 'N01': dict(groups=['net'],title='socket addresses'),
 'E01': dict(groups=['errors'],title='errors keep number and category'),
 'Q02': dict(groups=['config'],title='capacities and configuration'),
 'M01': dict(groups=['prom'],title='label sanitisers'),
 'F01': dict(groups=['fds','net','xfer'],entries={'xfer':['H_sendfile']},title='descriptor ownership'),
 'W01': dict(groups=['slots','worker'],title='operation slots'),
 'W02': dict(groups=['xfer'],entries={'xfer':[r'H_(read|write)_.*']},title='exact transfers'),
 'W03': dict(groups=['worker'],title='results reported faithfully'),
 'W04': dict(groups=['xfer'],entries={'xfer':['H_sendfile']},title='sendfile'),
 'C01': dict(groups=['coro','worker'],entries={'coro':['[HK]_(task|own|detached|dropped).*'],'worker':['H_read_at','H_close']},title='tasks'),
 'C02': dict(groups=['coro'],entries={'coro':['H_sync.*']},title='SyncWait'),
 'W05': dict(groups=['routing'],title='routing'),
 'L01': dict(groups=['logmsg'],title='log messages'),
 'K01': dict(groups=['entry'],title='stored entries'),
 'K02': dict(groups=['fileid'],title='file ids'),
})
NA={}
