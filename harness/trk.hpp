// Tracked element type: records every element operation (construction, destruction, read, assignment) and can be
// told to throw at the k-th construction or assignment.
#pragma once
#include "nzv.hpp"
#include <unordered_map>
#include <unordered_set>

namespace nzv
{
	struct Injected {};

	struct Registry
	{
		bool log = false;                 // record element events
		std::vector<std::vector<ll>> ev;  // element events of the current call
		std::unordered_map<const void*, ll> ids;
		std::unordered_set<const void*> live;
		std::vector<const void*> born;    // live places, for leak attribution
		long countdown = -1;              // throw when it reaches 0
		bool fired = false;
		ll copies = 0;                    // elements built or assigned from a constant one
		ll hidden = 0;                    // > 0: driver-owned temporaries, not recorded

		ll Id(const void* p)
		{
			auto it = ids.find(p);
			if (it != ids.end())
				return it->second;
			ll id = ll(ids.size()) + 1;
			ids.emplace(p, id);
			return id;
		}

		void Add(ll kind, const void* p)
		{
			if (log)
				ev.push_back({ kind, Id(p) });
		}

		void MayThrow(const void* p, bool construction)
		{
			if (countdown > 0 && --countdown == 0)
			{
				countdown = -1;
				fired = true;
				if (construction)
					Add(4, p);
				throw Injected{};
			}
		}
	};

	inline Registry& Reg() { thread_local Registry* r = new Registry; return *r; }

	constexpr int MovedValue = -1;

	// Copyable: copy operations exist. Defaultable: default constructor exists. NoexceptMove: moves never throw.
	template<bool Copyable, bool Defaultable, bool NoexceptMove, std::size_t Align = alignof(void*)>
	struct alignas(Align) Trk
	{
		static constexpr bool CanCopy = Copyable;
		static constexpr bool CanDefault = Defaultable;
		static constexpr bool CanThrow = !NoexceptMove;

		template<bool B = Defaultable, typename = std::enable_if_t<B>>
		Trk() { Born(); value = 0; }
		explicit Trk(int v) { Born(); value = v; }
		Trk(int a, int b) { Born(); value = a + b; }

		Trk(std::conditional_t<Copyable, const Trk&, const struct NoCopyTag&> o)
		{
			Read(&o);
			++Reg().copies;
			Born();
			value = Value(o);
		}
		Trk(Trk&& o) noexcept(NoexceptMove)
		{
			Read(&o);
			if constexpr (NoexceptMove)
				BornNoThrow();
			else
				Born();
			value = o.value;
			o.value = MovedValue;
		}
		~Trk()
		{
			Reg().Add(1, this);
			self = nullptr;
			value = -77;
		}
		Trk& operator=(std::conditional_t<Copyable, const Trk&, const struct NoCopyTag&> o)
		{
			Read(&o);
			++Reg().copies;
			Reg().Add(3, this);
			Reg().MayThrow(this, false);
			value = Value(o);
			return *this;
		}
		Trk& operator=(Trk&& o) noexcept(NoexceptMove)
		{
			Read(&o);
			Reg().Add(3, this);
			if constexpr (!NoexceptMove)
				Reg().MayThrow(this, false);
			int v = o.value;
			o.value = MovedValue;
			value = v;
			return *this;
		}

		// value seen by the driver; an element that was relocated bytewise or is dead shows -99
		int Get() const { return self == this ? value : -99; }

		int value;
		const void* self;

		private:
			static int Value(const Trk& o) { return o.Get(); }
			template<typename X> static int Value(const X&) { return 0; }
			static void Read(const void* p) { Reg().Add(2, p); }
			void Born()
			{
				Reg().MayThrow(this, true);
				BornNoThrow();
			}
			void BornNoThrow()
			{
				Reg().Add(0, this);
				self = this;
			}
	};

	struct NoCopyTag {};

	inline int ValueOf(int v) { return v; }
	template<bool C, bool D, bool N, std::size_t A> int ValueOf(const Trk<C, D, N, A>& t) { return t.Get(); }
}
