"""Properties that are stated but not claimed: static analysis cannot decide them here."""


def na(title, statement, over, why, files, mechanism, reason):
    return dict(title=title, statement=statement, over=over, why=why, files=files, mechanism=mechanism, reason=reason)


UNCLAIMED = {
    'N01': na(
        'Interval threads keep their period', 'An IntervalTerminableThread starts its rounds, and a Timer its function, at the times asked for, without drift and '
        'never early, whatever else the machine does.', (['schedules'], 'every load of the machine and every duration of a round'),
        'A test sees one machine under one load.', ['satella/coding/concurrent/thread.py', 'satella/coding/concurrent/timer.py'],
        [('run', 'IntervalTerminableThread.run')],
        'Quantifies over real time and the scheduler of the operating system, which no argument on the source can bound; what is decidable (how long it asks to sleep, '
        'the check for termination, the order of rounds) is claimed in C05 and C06.'),
    'N02': na(
        'A PID lock excludes processes across crashes', 'At any time at most one live process holds a PIDFileLock, whatever processes crash at whatever point, and a crash never '
        'leaves a lock that cannot be taken.', (['crash_points', 'schedules'], 'every interleaving and crash of any number of processes'),
        'It takes two processes and a crash between two system calls.', ['satella/os/pidlock.py'], [('acquire', 'PIDFileLock.acquire')],
        'Depends on the atomicity of the file system, on reuse of process identifiers and on interleavings of separate processes; the source of one process does not determine it. '
        'The decisions one process makes on what it finds are claimed in R08.'),
    'N03': na(
        'CPU percentiles describe the load of the machine', 'The percentiles of the CPU profile builder and the quantiles of sliding windows converge to those of the measured quantity, and '
        'CPU-aware threads run when the load is low.', (['inputs', 'histories'], 'every load of the machine'),
        'The load is not under the control of a test.', ['satella/instrumentation/cpu_time/'], [('recalculate', '_CPUProfileBuilderThread._recalculate')],
        'A statistical statement on measurements at run time; the source fixes only the formula.'),
    'N04': na(
        'Structures meet their complexity and give memory back', 'Operations on heaps, LRU, SparseMatrix and expiring dictionaries take the documented time and memory, and entries that were '
        'removed or whose owner is gone can be collected.', (['inputs', 'histories'], 'every size and history'),
        'Growth shows only in long runs.', ['satella/coding/structures/'], [('structures', 'satella.coding.structures')],
        'Amortised cost and reachability for the garbage collector need bounds on the number of loop iterations and on all references users hold, which a static argument on this dynamically typed code cannot give.'),
    'N05': na(
        'Overloads are resolved to the most specific signature', 'Calling an overload runs the most specific of the registered functions whose annotations admit the arguments.',
        (['inputs'], 'every set of annotated functions and every call'), 'Tests use signatures of one or two parameters that do not overlap.',
        ['satella/coding/overloading.py'], [('resolution', 'overload.__call__')],
        'Types are values computed at run time from annotations of user code (typing objects included), so that which of two signatures is more specific is not a question on the source of satella.'),
    'N06': na(
        'Daemonisation detaches the process', 'daemonize leaves a process without a controlling terminal, with its descriptors redirected and its rights dropped, or fails.',
        (['inputs', 'histories'], 'every state of the process and of the system'), 'Tests cannot fork away from their runner.',
        ['satella/os/daemon.py'], [('daemonize', 'satella.os.daemon')],
        'What holds afterwards is state of the operating system (sessions, descriptors, credentials) established by system calls with effects no source analysis of the caller can establish.'),
}
