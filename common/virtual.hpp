#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>

// a range nobody has to store: element i is a function of i
template <class El> struct virtual_range {
	struct iterator {
		using value_type = El;
		using difference_type = std::ptrdiff_t;
		using iterator_concept = std::forward_iterator_tag;
		using iterator_category = std::forward_iterator_tag;
		using pointer = const El *;
		using reference = El;
		uint64_t i = 0;
		constexpr El operator*() const noexcept { return static_cast<El>(value(i)); }
		constexpr iterator & operator++() noexcept { ++i; return *this; }
		constexpr iterator operator++(int) noexcept { auto c = *this; ++i; return c; }
		constexpr bool operator==(const iterator &) const noexcept = default;
	};
	uint64_t n = 0;
	static constexpr uint64_t value(uint64_t i) noexcept { return (i * 0x9e3779b97f4a7c15ull) >> 23; }
	constexpr iterator begin() const noexcept { return {0}; }
	constexpr iterator end() const noexcept { return {n}; }
	constexpr size_t size() const noexcept { return static_cast<size_t>(n); }
};
