"""Behaviour-preserving refactorings: (name, properties, [(file, old, new)...]).  tools/runrefs.py applies each to a scratch copy; the checks have to stay quiet."""
REFS = []
def R(name, props, *edits): REFS.append((name, props.split(), edits))

R("event", "P05", ("manual_reset_event.h", '''			auto* current = static_cast<async_manual_reset_event_operation*>(oldState);
			while (current != nullptr)
			{
				auto* next = current->m_next;
				current->m_awaiter.resume();
				current = next;
			}
''', '''			resume_all(static_cast<async_manual_reset_event_operation*>(oldState));
'''), ("manual_reset_event.h", '''	inline void async_manual_reset_event::set() noexcept
	{''', '''	inline void async_manual_reset_event::resume_all(async_manual_reset_event_operation* op) noexcept
	{
		for (async_manual_reset_event_operation* following; op; op = following)
		{
			following = op->m_next;
			auto h = op->m_awaiter;
			h();
		}
	}

	inline void async_manual_reset_event::set() noexcept
	{'''), ("manual_reset_event.h", '''		friend class async_manual_reset_event_operation;

		// This''', '''		friend class async_manual_reset_event_operation;
		static void resume_all(async_manual_reset_event_operation* op) noexcept;

		// This'''), ("manual_reset_event.h", '''		void* oldState = m_event.m_state.load(std::memory_order_acquire);
		do
		{
			if (oldState == setState)
			{
				// State is now 'set' no need to suspend.
				return false;
			}

			m_next = static_cast<async_manual_reset_event_operation*>(oldState);
		} while (!m_event.m_state.compare_exchange_weak(
			oldState,
			static_cast<void*>(this),
			std::memory_order_release,
			std::memory_order_acquire));

		// Successfully queued this waiter to the list.
		return true;''', '''		auto& state = m_event.m_state;
		void* expected = state.load(std::memory_order_acquire);
		for (;;)
		{
			const bool isSet = expected == setState;
			if (isSet)
				return false;
			m_next = static_cast<async_manual_reset_event_operation*>(expected);
			if (state.compare_exchange_strong(expected, static_cast<void*>(this), std::memory_order_acq_rel, std::memory_order_acquire))
				return true;
		}'''))

R("barrier", "P17 P16", ("barrier.h", '''			if (old == 3)
			{
				// count 0 and a waiter, which keeps the barrier alive.
				auto continuation = std::exchange(m_continuation, nullptr);
				m_count.fetch_sub(1, std::memory_order_relaxed);
				continuation.resume();
			}
			return old / 2 - 1;''', '''			const std::size_t left = (old >> 1) - 1;
			const bool waiting = old & 1;
			if (!waiting || left)
				return left;
			coroutine_handle<> continuation = m_continuation;
			m_continuation = coroutine_handle<>();
			m_count.store(0, std::memory_order_relaxed);
			continuation();
			return 0;'''), ("barrier.h", '''		if (m_barrier.increment() > 1)
		{
			set_parent''', '''		barrier& self = m_barrier;
		if (self.increment() == 1)
		{
			self.decrement();
			return ret;
		}
		{
			set_parent'''), ("barrier.h", '''		else
			m_barrier.decrement();

		return ret;''', '''		return ret;'''))

R("seqbarrier", "P06 P07 P08", ("sequence_barrier.h", '''		do
		{
			if (TRAITS::precedes(sequence, awaiters->m_targetSequence))
			{
				// Target sequence not reached. Append to 'requeue' list.
				*awaitersToRequeueTail = awaiters;
				awaitersToRequeueTail = &awaiters->m_next;
			}
			else
			{
				// Target sequence reached. Append to 'resume' list.
				*awaitersToResumeTail = awaiters;
				awaitersToResumeTail = &awaiters->m_next;
			}
			awaiters = awaiters->m_next;
		} while (awaiters != nullptr);
''', '''		for (auto* it = awaiters; it; it = it->m_next)
		{
			const bool reached = !TRAITS::precedes(sequence, it->m_targetSequence);
			auto**& tail = reached ? awaitersToResumeTail : awaitersToRequeueTail;
			*tail = it;
			tail = &it->m_next;
		}
'''), ("sequence_barrier.h", '''			return !m_readyToResume.exchange(true, std::memory_order_acquire);
		}

		SEQUENCE await''', '''			const bool already = m_readyToResume.exchange(true, std::memory_order_acquire);
			if (already)
				return false;
			return true;
		}

		SEQUENCE await'''))

R("seqbarrier2", "P06 P09", ("sequence_barrier.h", '''		while (awaitersToResume != nullptr)
		{
			auto* next = awaitersToResume->m_next;
			awaitersToResume->m_lastKnownPublished = sequence;
			awaitersToResume->resume();
			awaitersToResume = next;
		}
	}
''', '''		resume_list(awaitersToResume, sequence);
	}

	template<typename SEQUENCE, typename TRAITS>
	void sequence_barrier<SEQUENCE, TRAITS>::resume_list(awaiter_t* list, SEQUENCE published) noexcept
	{
		for (awaiter_t* next; list != nullptr; list = next)
		{
			next = list->m_next;
			list->m_lastKnownPublished = published;
			list->resume();
		}
	}
'''), ("sequence_barrier.h", '''		void add_awaiter(awaiter_t* awaiter) const noexcept;
''', '''		void add_awaiter(awaiter_t* awaiter) const noexcept;
		static void resume_list(awaiter_t* list, SEQUENCE published) noexcept;
'''), ("sequence_barrier.h", '''		while (awaitersToResume != nullptr)
		{
			auto* next = awaitersToResume->m_next;
			awaitersToResume->m_lastKnownPublished = lastKnownPublished;
			awaitersToResume->resume();
			awaitersToResume = next;
		}
''', '''		sequence_barrier::resume_list(awaitersToResume, lastKnownPublished);
'''))

R("pool_run", "P12 P13 P23", ("thread_pool.h", '''                    if (state->mDelayHeap.size() && state->mDelayHeap.front().deadline <= clock::now())
                    {
                        //state->log("run::pop-delay");

                        fn = state->mDelayHeap.front().handle;
                        std::pop_heap(state->mDelayHeap.begin(), state->mDelayHeap.end());
                        state->mDelayHeap.pop_back();
                    }
                    else if (state->mDeque.size())
                    {
                        //state->log("run::pop");
                        fn = state->mDeque.front();
                        state->mDeque.pop_front();
                    }

                    if (fn)
                    {
                        lock.unlock();

                        fn.resume();
                        fn = {};

                        lock.lock();
                    }''', '''                    fn = state->take();
                    if (!fn)
                        continue;

                    lock.unlock();
                    std::exchange(fn, nullptr).resume();
                    lock.lock();'''), ("thread_pool.h", '''            void post(coroutine_handle<void> fn)
            {''', '''            // the next coroutine to resume, if any. mMutex is held.
            coroutine_handle<void> take()
            {
                coroutine_handle<void> h;
                if (!mDelayHeap.empty() && !(mDelayHeap.front().deadline > thread_pool_clock::now()))
                {
                    std::pop_heap(mDelayHeap.begin(), mDelayHeap.end());
                    h = mDelayHeap.back().handle;
                    mDelayHeap.pop_back();
                }
                else if (!mDeque.empty())
                {
                    h = mDeque.front();
                    mDeque.pop_front();
                }
                return h;
            }

            void post(coroutine_handle<void> fn)
            {'''))

R("pool_misc", "P12 P13", ("thread_pool.h", '''                std::lock_guard<std::mutex> lock(mMutex);
                mDeque.push_back(std::move(fn));
                mCondition.notify_one();
            }

            MACORO''', '''                std::unique_lock<std::mutex> lock(mMutex);
                mDeque.emplace_back(fn);
                mCondition.notify_all();
            }

            MACORO'''), ("thread_pool.h", '''                if (mCurrentExecutor == this)
                    return true;
                else
                {
                    std::lock_guard<std::mutex> lock(mMutex);
                    mDeque.push_back(std::move(fn));
                    mCondition.notify_one();
                    return false;
                }''', '''                if (mCurrentExecutor != this)
                {
                    post(fn);
                    return false;
                }
                return true;'''), ("thread_pool.h", '''                if (token.stop_requested() == false)
                {
                    std::size_t idx;''', '''                if (token.stop_requested())
                {
                    post(h);
                    return;
                }

                {
                    std::size_t idx;'''), ("thread_pool.h", '''                    mCondition.notify_one();
                }
                else
                {
                    post(h);
                }
            }''', '''                    mCondition.notify_one();
                }
            }'''), ("thread_pool.h", '''                bool notify = false;
                {
                    std::unique_lock<std::mutex> lock(mMutex);
                    for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
                    {
                        if (mDelayHeap[i].idx == idx)
                        {
                            mDelayHeap[i].deadline = thread_pool_clock::now();
                            std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
                            notify = true;
                            break;
                        }
                    }
                }
                if (notify)
                    mCondition.notify_one();''', '''                std::unique_lock<std::mutex> lock(mMutex);
                auto it = std::find_if(mDelayHeap.begin(), mDelayHeap.end(), [idx](const thread_pool_delay_op& op) { return op.idx == idx; });
                if (it == mDelayHeap.end())
                    return;
                it->deadline = thread_pool_clock::now();
                std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
                mCondition.notify_one();'''))

R("spsc", "P07 P09", ("sequence_spsc.h", '''			const SEQUENCE begin = m_sequencer.m_nextToClaim;
			const std::size_t availableCount = static_cast<std::size_t>(TRAITS::difference(lastAvailableSequence, begin)) + 1;
			const std::size_t countToClaim = std::min(m_count, availableCount);
			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
			m_sequencer.m_nextToClaim = end;
			return sequence_range<SEQUENCE, TRAITS>(begin, end);''', '''			auto& seq = m_sequencer;
			sequence_range<SEQUENCE, TRAITS> all(seq.m_nextToClaim, static_cast<SEQUENCE>(lastAvailableSequence + 1));
			auto granted = all.first(m_count);
			seq.m_nextToClaim = static_cast<SEQUENCE>(granted.back() + 1);
			return granted;'''), ("sequence_spsc.h", '''			return m_sequencer.m_nextToClaim++;''', '''			const SEQUENCE claimed = m_sequencer.m_nextToClaim;
			m_sequencer.m_nextToClaim = static_cast<SEQUENCE>(claimed + 1);
			return claimed;'''))

R("mpsc", "P08 P09", ("sequence_mpsc.h", '''		SEQUENCE seq = lastKnownPublished + 1;
		while (m_published[seq & mask].load(std::memory_order_acquire) == seq)
		{
			lastKnownPublished = seq++;
		}
		return lastKnownPublished;''', '''		for (;;)
		{
			const SEQUENCE next = static_cast<SEQUENCE>(lastKnownPublished + 1);
			const auto& slot = m_published[next & mask];
			if (slot.load(std::memory_order_acquire) != next)
				return lastKnownPublished;
			lastKnownPublished = next;
		}'''), ("sequence_mpsc.h", '''			m_lastKnownPublished = lastKnownPublished;
			if (m_readyToResume.exchange(true, std::memory_order_release))
			{
				resume_impl();
			}''', '''			m_lastKnownPublished = lastKnownPublished;
			const bool suspended = m_readyToResume.exchange(true, std::memory_order_acq_rel);
			if (suspended)
				m_awaitingCoroutine.resume();'''))

R("task_eager", "P03 P15 P23", ("task.h", '''					auto b = promise.m_state.fetch_or(completed, std::memory_order_acq_rel);

					// if b, then we have finished after the continuation was set. 
					if (b & has_continuation)
					{
						assert(promise.m_continuation);
						return promise.m_continuation;
					}
					else
						return noop_coroutine();''', '''					return promise.complete();'''), ("task.h", '''		public:

			task_promise_base() noexcept
				: m_state(0)
			{''', '''			coroutine_handle<> complete() noexcept
			{
				const auto before = m_state.fetch_or(completed, std::memory_order_acq_rel);
				if ((before & has_continuation) == 0)
					return noop_coroutine();
				return m_continuation;
			}

		public:

			task_promise_base() noexcept
				: m_state(0)
			{'''), ("task.h", '''				if (b)
				{
					return awaitingCoroutine;
				}
				else
				{
					// otherwise we have finished first and our continuation will be resumed
					// when the coroutine finishes.
					return noop_coroutine();
				}''', '''				coroutine_handle<> next = noop_coroutine();
				if (b)
					next = awaitingCoroutine;
				return next;'''))

R("task_lazy", "P02 P20 P14", ("task.h", '''				switch (m_resultType)
				{
				case result_type::value:
					m_value.~T();
					break;
				case result_type::exception:
					m_exception.~exception_ptr();
					break;
				default:
					break;
				}''', '''				if (m_resultType == result_type::value)
					std::destroy_at(std::addressof(m_value));
				else if (m_resultType == result_type::exception)
					std::destroy_at(std::addressof(m_exception));'''), ("task.h", '''			T result()&&
			{
				if (m_resultType == result_type::exception)
				{
					std::rethrow_exception(m_exception);
				}

				assert(m_resultType == result_type::value);

				return std::move(m_value);''', '''			T result()&&
			{
				T& value = result();
				return std::move(value);'''), ("task.h", '''				auto& prom = m_coroutine.promise();
				prom.set_continuation(awaitingCoroutine, l);
				return m_coroutine.std_cast();''', '''				return await_suspend(coroutine_handle<Promise>(awaitingCoroutine), l).std_cast();'''))

R("when_all", "P04", ("detail/when_all_awaitable.h", '''				m_awaitingCoroutine = awaitingCoroutine;
				return m_count.fetch_sub(1, std::memory_order_acq_rel) > 1;''', '''				m_awaitingCoroutine = awaitingCoroutine;
				const auto before = m_count.fetch_sub(1, std::memory_order_acq_rel);
				return before != 1;'''), ("detail/when_all_awaitable.h", '''				if (m_count.fetch_sub(1, std::memory_order_acq_rel) == 1)
				{
					m_awaitingCoroutine.resume();
				}''', '''				const auto left = m_count.fetch_sub(1, std::memory_order_acq_rel) - 1;
				if (left != 0)
					return;
				m_awaitingCoroutine();'''), ("detail/when_all_awaitable.h", '''					for (auto&& task : m_tasks)
					{
						task.start(*this);
					}''', '''					const std::size_t n = m_tasks.size();
					for (std::size_t i = 0; i < n; ++i)
						m_tasks[i].start(*this);'''), ("detail/when_all_awaitable.h", '''					(void)std::initializer_list<int>{
						(std::get<INDICES>(m_tasks).start(*this), 0)...
					};''', '''					(std::get<INDICES>(m_tasks).start(*this), ...);'''))

R("stop_notify", "P10 P11 P15", ("detail/stop_state.cpp", '''				for (std::uint32_t entryIndex = 0, entryCount = chunk->m_entryCount;
					entryIndex < entryCount;
					++entryIndex)
				{
					auto& entry = chunk->m_entries[entryIndex];

					// Quick read-only operation to check if any registration
					// is present.
					auto* registration = entry.load(std::memory_order_seq_cst);
					if (registration != nullptr)
					{
						// Try to acquire ownership of the registration by replacing its
						// slot with nullptr atomically. This resolves the race between
						// a concurrent call to deregister_callback() from the registration's
						// destructor.
						registration = entry.exchange(nullptr, std::memory_order_seq_cst);
						if (registration != nullptr)
						{
							try
							{
								registration->m_callback();
							}
							catch (...)
							{
								// TODO: What should behaviour of unhandled exception in a callback be here?
								std::terminate();
							}
						}
					}
				}
''', '''				auto* entry = &chunk->m_entries[0];
				auto* const last = entry + chunk->m_entryCount;
				for (; entry != last; ++entry)
				{
					if (entry->load(std::memory_order_seq_cst) == nullptr)
						continue;

					auto* const registration = entry->exchange(nullptr, std::memory_order_seq_cst);
					if (registration != nullptr)
						[registration]() noexcept { registration->m_callback(); }();
				}
'''), ("detail/stop_state.cpp", '''		if (std::this_thread::get_id() != registrationState->m_notificationThreadId)
		{
			// TODO: More efficient busy-wait backoff strategy
			while (!is_cancellation_notification_complete())
			{
				std::this_thread::yield();
			}
		}''', '''		if (std::this_thread::get_id() == registrationState->m_notificationThreadId)
			return;

		do
		{
			std::this_thread::yield();
		} while (!is_cancellation_notification_complete());'''))

R("stop_handles", "P11 P10", ("detail/stop_source.cpp", '''	if (m_state != other.m_state)
	{
		if (m_state != nullptr)
		{
			m_state->release_source_ref();
		}

		m_state = other.m_state;

		if (m_state != nullptr)
		{
			m_state->add_source_ref();
		}
	}

	return *this;''', '''	if (m_state == other.m_state)
		return *this;

	auto* const old = m_state;
	m_state = other.m_state;
	if (m_state)
		m_state->add_source_ref();
	if (old)
		old->release_source_ref();
	return *this;'''), ("detail/stop_token.cpp", '''	if (this != &other)
	{
		if (m_state != nullptr)
		{
			m_state->release_token_ref();
		}

		m_state = other.m_state;
		other.m_state = nullptr;
	}

	return *this;''', '''	if (this != std::addressof(other))
	{
		auto* const taken = std::exchange(other.m_state, nullptr);
		if (auto* const old = std::exchange(m_state, taken))
			old->release_token_ref();
	}

	return *this;'''), ("detail/stop_token.cpp", '''	std::swap(m_state, other.m_state);''', '''	auto* const mine = m_state;
	m_state = other.m_state;
	other.m_state = mine;'''))

R("take_until", "P15", ("take_until.h", '''		try {
			co_await std::move(until);
		}
		catch(...)
		{ }

		if (ex)
			std::rethrow_exception(ex);
''', '''		try {
			co_await std::forward<UNTIL>(until);
		}
		catch (...)
		{
			// its failure is ignored.
		}

		if (ex != nullptr)
		{
			auto failure = std::move(ex);
			std::rethrow_exception(std::move(failure));
		}
'''), ("timeout.h", '''				mReg.reset(new stop_callback(token, [src''', '''				mReg = std::make_unique<stop_callback>(token, std::function<void()>([src'''), ("timeout.h", '''					s.request_stop();
				}));''', '''					s.request_stop();
				}));
				static_cast<void>(0);'''), ("timeout.h", '''		timeout(timeout&& o)
			: mSrc(o.mSrc) // required to be copy so that the token can still be used.
			, mReg(std::move(o.mReg))
			, mTask(std::move(o.mTask))
		{}''', '''		timeout(timeout&& o)
		{
			*this = std::move(o);
		}'''))

R("start_on", "P23", ("start_on.h", '''		auto start_on(scheduler& s, awaitable a)
		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
	{
		co_await transfer_to(s);
		co_return co_await std::move(a);
	}''', '''		auto start_on(scheduler& s, awaitable a)
		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
	{
		co_await s.schedule();
		co_return co_await static_cast<awaitable&&>(a);
	}'''))
