// Stand-in for the part of the Blaze 3.x API that ieompp uses, with the documented semantics.
// Expressions are evaluated eagerly. CompressedMatrix records the low-level assembly protocol
// (reserve / append / finalize), whose preconditions Blaze states but does not check in release
// builds; breaches are reported to blaze::shim::monitor().
#ifndef BLAZE_SHIM_HPP_
#define BLAZE_SHIM_HPP_

#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <istream>
#include <limits>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define BLAZE_MAJOR_VERSION 3
#define BLAZE_MINOR_VERSION 1

namespace blaze
{
    using std::size_t;

    constexpr bool columnVector = false;
    constexpr bool rowVector    = true;
    constexpr bool rowMajor     = false;
    constexpr bool columnMajor  = true;

    namespace shim
    {
        struct Monitor {
            uint64_t appends = 0, finalizes = 0, reserves = 0, matrices = 0, max_row = 0;
            uint64_t appends_to_reused = 0, inserts = 0;
            std::vector<std::string> breaches;
            void breach(const std::string& what)
            {
                if(breaches.size() < 50) {
                    breaches.push_back(what);
                }
            }
        };
        inline Monitor& monitor()
        {
            static Monitor m;
            return m;
        }

        template <typename T>
        struct IsComplex : std::false_type {
        };
        template <typename T>
        struct IsComplex<std::complex<T>> : std::true_type {
        };
        template <typename T>
        struct IsScalar
            : std::integral_constant<bool, std::is_arithmetic<T>::value || IsComplex<T>::value> {
        };

        // result type of mixed scalar arithmetic; unused for anything else
        template <typename A, typename B, bool = std::is_arithmetic<A>::value && std::is_arithmetic<B>::value>
        struct Promote {
            using Type = int;
        };
        template <typename A, typename B>
        struct Promote<A, B, true> {
            using Type = typename std::common_type<A, B>::type;
        };
        template <typename A, typename B>
        struct Promote<std::complex<A>, B, false> {
            using Type = std::complex<A>;
        };
        template <typename A, typename B>
        struct Promote<A, std::complex<B>, false> {
            using Type = std::complex<B>;
        };
        template <typename A, typename B>
        struct Promote<std::complex<A>, std::complex<B>, false> {
            using Type = std::complex<typename std::common_type<A, B>::type>;
        };

        // what "uninitialised" elements hold: Blaze leaves built-in elements uninitialised
        template <typename T>
        typename std::enable_if<std::is_floating_point<T>::value, T>::type poison()
        {
            return std::numeric_limits<T>::quiet_NaN();
        }
        template <typename T>
        typename std::enable_if<std::is_integral<T>::value, T>::type poison()
        {
            return std::numeric_limits<T>::max() / 3;
        }
        template <typename T>
        typename std::enable_if<IsComplex<T>::value, T>::type poison()
        {
            return T(std::numeric_limits<typename T::value_type>::quiet_NaN(), 0);
        }
        template <typename T>
        T fresh() // element of a newly allocated array
        {
            return IsComplex<T>::value ? T() : poison<T>();
        }
    } // namespace shim

    template <typename T, bool TF>
    class DynamicVector;
    template <typename T, bool SO>
    class DynamicMatrix;
    template <typename T, bool SO>
    class CompressedMatrix;

    // ------------------------------------------------------------------ StaticVector
    template <typename T, size_t N, bool TF = columnVector>
    class StaticVector
    {
    public:
        using ElementType = T;

    private:
        T _v[N];

    public:
        StaticVector() { std::fill(_v, _v + N, T()); }
        explicit StaticVector(const T& init) { std::fill(_v, _v + N, init); }
        StaticVector(std::initializer_list<T> l)
        {
            if(l.size() > N) {
                throw std::invalid_argument("Invalid setup of static vector");
            }
            std::fill(std::copy(l.begin(), l.end(), _v), _v + N, T());
        }
        T& operator[](size_t i)
        {
            assert(i < N);
            return _v[i];
        }
        const T& operator[](size_t i) const
        {
            assert(i < N);
            return _v[i];
        }
        T& at(size_t i)
        {
            if(i >= N) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        static constexpr size_t size() { return N; }
        void reset() { std::fill(_v, _v + N, T()); }
        T* begin() { return _v; }
        T* end() { return _v + N; }
        const T* begin() const { return _v; }
        const T* end() const { return _v + N; }
        const T* cbegin() const { return _v; }
        const T* cend() const { return _v + N; }
        T* data() { return _v; }
        const T* data() const { return _v; }
        const T& at(size_t i) const
        {
            if(i >= N) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        size_t nonZeros() const
        {
            return size_t(std::count_if(begin(), end(), [](const T& t) { return t != T(); }));
        }
        StaticVector& operator=(const T& x)
        {
            std::fill(_v, _v + N, x);
            return *this;
        }
        StaticVector& operator+=(const StaticVector& r)
        {
            for(size_t i = 0; i < N; ++i) _v[i] += r._v[i];
            return *this;
        }
        StaticVector& operator-=(const StaticVector& r)
        {
            for(size_t i = 0; i < N; ++i) _v[i] -= r._v[i];
            return *this;
        }
        template <typename S>
        StaticVector& operator*=(const S& s)
        {
            for(size_t i = 0; i < N; ++i) _v[i] *= s;
            return *this;
        }
        template <typename S>
        StaticVector& operator/=(const S& s)
        {
            for(size_t i = 0; i < N; ++i) _v[i] /= s;
            return *this;
        }
    };
    template <typename T, size_t N, bool TF>
    void reset(StaticVector<T, N, TF>& v)
    {
        v.reset();
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator+(StaticVector<T, N, TF> a, const StaticVector<T, N, TF>& b)
    {
        return a += b;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator-(StaticVector<T, N, TF> a, const StaticVector<T, N, TF>& b)
    {
        return a -= b;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator-(StaticVector<T, N, TF> a)
    {
        return a *= T(-1);
    }
    template <typename T, size_t N, bool TF, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, StaticVector<T, N, TF>>::type
    operator*(StaticVector<T, N, TF> a, const S& s)
    {
        return a *= T(s);
    }
    template <typename T, size_t N, bool TF, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, StaticVector<T, N, TF>>::type
    operator*(const S& s, StaticVector<T, N, TF> a)
    {
        return a *= T(s);
    }
    template <typename T, size_t N, bool TF, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, StaticVector<T, N, TF>>::type
    operator/(StaticVector<T, N, TF> a, const S& s)
    {
        return a /= T(s);
    }
    template <typename T, size_t N, bool TF>
    bool operator==(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        return std::equal(a.begin(), a.end(), b.begin());
    }
    template <typename T, size_t N, bool TF>
    bool operator!=(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        return !(a == b);
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, !TF> trans(const StaticVector<T, N, TF>& v)
    {
        StaticVector<T, N, !TF> r;
        std::copy(v.begin(), v.end(), r.begin());
        return r;
    }
    template <typename T, typename U, size_t N>
    typename shim::Promote<T, U>::Type operator*(const StaticVector<T, N, rowVector>& a,
                                                 const StaticVector<U, N, columnVector>& b)
    {
        typename shim::Promote<T, U>::Type r{};
        for(size_t i = 0; i < N; ++i) r += a[i] * b[i];
        return r;
    }
    template <typename T, size_t N, bool TF>
    std::ostream& operator<<(std::ostream& o, const StaticVector<T, N, TF>& v)
    {
        for(auto& x : v) o << x << '\n';
        return o;
    }

    // ------------------------------------------------------------------ DynamicVector
    template <typename T, bool TF = columnVector>
    class DynamicVector
    {
    public:
        using ElementType = T;
        using value_type  = T;

    private:
        size_t _size = 0, _capacity = 0;
        std::unique_ptr<T[]> _v; // exact-size heap block, so that ASan sees every overrun

        void allocate(size_t n)
        {
            _v.reset(n ? new T[n] : nullptr);
            _capacity = n;
            for(size_t i = 0; i < n; ++i) _v[i] = shim::fresh<T>();
        }

    public:
        DynamicVector() {}
        explicit DynamicVector(size_t n) : _size(n) { allocate(n); }
        DynamicVector(size_t n, const T& init) : _size(n)
        {
            allocate(n);
            std::fill(_v.get(), _v.get() + n, init);
        }
        DynamicVector(std::initializer_list<T> l) : _size(l.size())
        {
            allocate(_size);
            std::copy(l.begin(), l.end(), _v.get());
        }
        DynamicVector(const DynamicVector& o) : _size(o._size)
        {
            allocate(_size);
            std::copy(o.begin(), o.end(), _v.get());
        }
        template <typename U>
        DynamicVector(const DynamicVector<U, TF>& o) : _size(o.size())
        {
            allocate(_size);
            std::copy(o.begin(), o.end(), _v.get());
        }
        DynamicVector(DynamicVector&& o) noexcept
            : _size(o._size), _capacity(o._capacity), _v(std::move(o._v))
        {
            o._size = o._capacity = 0;
        }
        DynamicVector& operator=(const DynamicVector& o)
        {
            if(this != &o) {
                resize(o._size, false);
                std::copy(o.begin(), o.end(), _v.get());
            }
            return *this;
        }
        template <typename U>
        DynamicVector& operator=(const DynamicVector<U, TF>& o)
        {
            resize(o.size(), false);
            std::copy(o.begin(), o.end(), _v.get());
            return *this;
        }
        DynamicVector& operator=(DynamicVector&& o) noexcept
        {
            swap(o);
            return *this;
        }
        DynamicVector& operator=(const T& x)
        {
            std::fill(begin(), end(), x);
            return *this;
        }

        void resize(size_t n, bool preserve = true)
        {
            if(n != _capacity || !_v) { // keep the block exactly as large as the vector
                std::unique_ptr<T[]> old(std::move(_v));
                const size_t k = preserve ? std::min(n, _size) : 0;
                allocate(n);
                std::copy(old.get(), old.get() + k, _v.get());
            } else if(!preserve) {
                for(size_t i = 0; i < n; ++i) _v[i] = shim::poison<T>();
            }
            _size = n;
        }
        void reserve(size_t) {}
        void clear() { resize(0); }
        void reset() { std::fill(begin(), end(), T()); }
        size_t size() const noexcept { return _size; }
        size_t capacity() const noexcept { return _capacity; }
        size_t nonZeros() const
        {
            return size_t(std::count_if(begin(), end(), [](const T& t) { return t != T(); }));
        }
        T& operator[](size_t i)
        {
            assert(i < _size);
            return _v[i];
        }
        const T& operator[](size_t i) const
        {
            assert(i < _size);
            return _v[i];
        }
        T& at(size_t i)
        {
            if(i >= _size) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        const T& at(size_t i) const
        {
            if(i >= _size) throw std::out_of_range("Invalid vector access index");
            return _v[i];
        }
        T* data() noexcept { return _v.get(); }
        T* begin() noexcept { return _v.get(); }
        T* end() noexcept { return _v.get() + _size; }
        const T* begin() const noexcept { return _v.get(); }
        const T* end() const noexcept { return _v.get() + _size; }
        const T* cbegin() const noexcept { return _v.get(); }
        const T* cend() const noexcept { return _v.get() + _size; }
        const T* data() const noexcept { return _v.get(); }
        template <typename S>
        DynamicVector& scale(const S& s)
        {
            return *this *= s;
        }
        void extend(size_t n, bool preserve = true) { resize(_size + n, preserve); }
        void swap(DynamicVector& o) noexcept
        {
            std::swap(_size, o._size);
            std::swap(_capacity, o._capacity);
            std::swap(_v, o._v);
        }

        template <typename U>
        DynamicVector& operator+=(const DynamicVector<U, TF>& o)
        {
            same(o.size());
            for(size_t i = 0; i < _size; ++i) _v[i] += o[i];
            return *this;
        }
        template <typename U>
        DynamicVector& operator-=(const DynamicVector<U, TF>& o)
        {
            same(o.size());
            for(size_t i = 0; i < _size; ++i) _v[i] -= o[i];
            return *this;
        }
        template <typename S>
        typename std::enable_if<shim::IsScalar<S>::value, DynamicVector&>::type
        operator*=(const S& s)
        {
            for(size_t i = 0; i < _size; ++i) _v[i] *= s;
            return *this;
        }
        template <typename S>
        typename std::enable_if<shim::IsScalar<S>::value, DynamicVector&>::type
        operator/=(const S& s)
        {
            for(size_t i = 0; i < _size; ++i) _v[i] /= s;
            return *this;
        }

    private:
        void same(size_t n) const
        {
            if(n != _size) throw std::invalid_argument("Vector sizes do not match");
        }
    };
    template <typename T, bool TF>
    void reset(DynamicVector<T, TF>& v)
    {
        v.reset();
    }
    template <typename T, bool TF>
    void swap(DynamicVector<T, TF>& a, DynamicVector<T, TF>& b)
    {
        a.swap(b);
    }
    template <typename A, typename B, bool TF>
    DynamicVector<typename shim::Promote<A, B>::Type, TF> operator+(const DynamicVector<A, TF>& a,
                                                                    const DynamicVector<B, TF>& b)
    {
        DynamicVector<typename shim::Promote<A, B>::Type, TF> r(a);
        return r += b;
    }
    template <typename A, typename B, bool TF>
    DynamicVector<typename shim::Promote<A, B>::Type, TF> operator-(const DynamicVector<A, TF>& a,
                                                                    const DynamicVector<B, TF>& b)
    {
        DynamicVector<typename shim::Promote<A, B>::Type, TF> r(a);
        return r -= b;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator-(DynamicVector<T, TF> a)
    {
        return a *= T(-1);
    }
    template <typename T, bool TF, typename S>
    typename std::enable_if<shim::IsScalar<S>::value,
                            DynamicVector<typename shim::Promote<T, S>::Type, TF>>::type
    operator*(const DynamicVector<T, TF>& a, const S& s)
    {
        DynamicVector<typename shim::Promote<T, S>::Type, TF> r(a);
        return r *= s;
    }
    template <typename T, bool TF, typename S>
    typename std::enable_if<shim::IsScalar<S>::value,
                            DynamicVector<typename shim::Promote<T, S>::Type, TF>>::type
    operator*(const S& s, const DynamicVector<T, TF>& a)
    {
        DynamicVector<typename shim::Promote<T, S>::Type, TF> r(a);
        return r *= s;
    }
    template <typename T, bool TF, typename S>
    typename std::enable_if<shim::IsScalar<S>::value,
                            DynamicVector<typename shim::Promote<T, S>::Type, TF>>::type
    operator/(const DynamicVector<T, TF>& a, const S& s)
    {
        DynamicVector<typename shim::Promote<T, S>::Type, TF> r(a);
        return r /= s;
    }
    template <typename A, typename B, bool TF>
    bool operator==(const DynamicVector<A, TF>& a, const DynamicVector<B, TF>& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }
    template <typename A, typename B, bool TF>
    bool operator!=(const DynamicVector<A, TF>& a, const DynamicVector<B, TF>& b)
    {
        return !(a == b);
    }
    template <typename T, bool TF>
    DynamicVector<T, !TF> trans(const DynamicVector<T, TF>& v)
    {
        DynamicVector<T, !TF> r(v.size());
        std::copy(v.begin(), v.end(), r.begin());
        return r;
    }
    template <typename A, typename B>
    typename shim::Promote<A, B>::Type operator*(const DynamicVector<A, rowVector>& a,
                                                 const DynamicVector<B, columnVector>& b)
    {
        if(a.size() != b.size()) throw std::invalid_argument("Vector sizes do not match");
        typename shim::Promote<A, B>::Type r{};
        for(size_t i = 0; i < a.size(); ++i) r += a[i] * b[i];
        return r;
    }
    template <typename T, bool TF>
    std::ostream& operator<<(std::ostream& o, const DynamicVector<T, TF>& v)
    {
        for(auto& x : v) o << x << '\n';
        return o;
    }

    // ------------------------------------------------------------------ functions of dense vectors
    namespace shim
    {
        template <typename V>
        struct IsDense : std::false_type {
        };
        template <typename T, bool TF>
        struct IsDense<DynamicVector<T, TF>> : std::true_type {
        };
        template <typename T, size_t N, bool TF>
        struct IsDense<StaticVector<T, N, TF>> : std::true_type {
        };
        template <typename V, typename T>
        struct Rebind;
        template <typename T, bool TF, typename U>
        struct Rebind<DynamicVector<T, TF>, U> {
            using Type = DynamicVector<U, TF>;
            static Type make(size_t n) { return Type(n); }
        };
        template <typename T, size_t N, bool TF, typename U>
        struct Rebind<StaticVector<T, N, TF>, U> {
            using Type = StaticVector<U, N, TF>;
            static Type make(size_t) { return Type(); }
        };
        template <typename T>
        struct RealType {
            using Type = T;
        };
        template <typename T>
        struct RealType<std::complex<T>> {
            using Type = T;
        };
        template <typename T>
        typename std::enable_if<IsComplex<T>::value, T>::type conjugated(const T& x)
        {
            return std::conj(x);
        }
        template <typename T>
        typename std::enable_if<!IsComplex<T>::value, T>::type conjugated(const T& x)
        {
            return x;
        }
        struct Conj {
            template <typename T>
            T operator()(const T& x) const
            {
                return conjugated(x);
            }
        };
        struct Real {
            template <typename T>
            typename RealType<T>::Type operator()(const T& x) const
            {
                return std::real(x);
            }
        };
        struct Imag {
            template <typename T>
            typename RealType<T>::Type operator()(const T& x) const
            {
                return std::imag(x);
            }
        };
        struct Abs {
            template <typename T>
            typename RealType<T>::Type operator()(const T& x) const
            {
                return std::abs(x);
            }
        };
    } // namespace shim

    template <typename V, typename F>
    auto map(const V& v, const F& f) -> typename std::enable_if<
        shim::IsDense<V>::value,
        typename shim::Rebind<V, typename std::decay<decltype(f(v[0]))>::type>::Type>::type
    {
        auto r = shim::Rebind<V, typename std::decay<decltype(f(v[0]))>::type>::make(v.size());
        for(size_t i = 0; i < v.size(); ++i) r[i] = f(v[i]);
        return r;
    }
    template <typename V, typename F>
    auto forEach(const V& v, const F& f) -> decltype(map(v, f))
    {
        return map(v, f);
    }
    template <typename V>
    auto conj(const V& v) -> decltype(map(v, shim::Conj()))
    {
        return map(v, shim::Conj());
    }
    template <typename V>
    auto ctrans(const V& v) -> decltype(trans(map(v, shim::Conj())))
    {
        return trans(map(v, shim::Conj()));
    }
    template <typename V>
    auto real(const V& v) -> decltype(map(v, shim::Real()))
    {
        return map(v, shim::Real());
    }
    template <typename V>
    auto imag(const V& v) -> decltype(map(v, shim::Imag()))
    {
        return map(v, shim::Imag());
    }
    template <typename V>
    auto abs(const V& v) -> decltype(map(v, shim::Abs()))
    {
        return map(v, shim::Abs());
    }
    template <typename V>
    typename std::enable_if<shim::IsDense<V>::value, const V&>::type eval(const V& v)
    {
        return v;
    }
    template <typename V>
    typename std::enable_if<shim::IsDense<V>::value, size_t>::type size(const V& v)
    {
        return v.size();
    }
    template <typename V>
    typename std::enable_if<shim::IsDense<V>::value, typename V::ElementType>::type sum(const V& v)
    {
        typename V::ElementType r{};
        for(auto& x : v) r += x;
        return r;
    }
    template <typename A, typename B>
    typename std::enable_if<shim::IsDense<A>::value && shim::IsDense<B>::value,
                            typename shim::Promote<typename A::ElementType,
                                                   typename B::ElementType>::Type>::type
    dot(const A& a, const B& b) // Blaze: the plain product, without conjugation
    {
        if(a.size() != b.size()) throw std::invalid_argument("Vector sizes do not match");
        typename shim::Promote<typename A::ElementType, typename B::ElementType>::Type r{};
        for(size_t i = 0; i < a.size(); ++i) r += a[i] * b[i];
        return r;
    }
    template <typename A, typename B>
    auto inner(const A& a, const B& b) -> decltype(dot(a, b))
    {
        return dot(a, b);
    }
    template <typename A, typename B>
    auto operator,(const A& a, const B& b) -> decltype(dot(a, b))
    {
        return dot(a, b);
    }
    template <typename V>
    typename std::enable_if<shim::IsDense<V>::value,
                            typename shim::RealType<typename V::ElementType>::Type>::type
    sqrNorm(const V& v)
    {
        typename shim::RealType<typename V::ElementType>::Type r{};
        for(auto& x : v) r += std::norm(x);
        return r;
    }
    template <typename V>
    auto norm(const V& v) -> decltype(sqrNorm(v))
    {
        return std::sqrt(sqrNorm(v));
    }
    template <typename V>
    auto length(const V& v) -> decltype(sqrNorm(v))
    {
        return std::sqrt(sqrNorm(v));
    }
    template <typename V>
    auto sqrLength(const V& v) -> decltype(sqrNorm(v))
    {
        return sqrNorm(v);
    }
    template <typename T, bool TF>
    T* begin(DynamicVector<T, TF>& v)
    {
        return v.begin();
    }
    template <typename T, size_t N, bool TF>
    T* begin(StaticVector<T, N, TF>& v)
    {
        return v.begin();
    }
    template <typename T, bool TF>
    const T* begin(const DynamicVector<T, TF>& v)
    {
        return v.begin();
    }
    template <typename T, size_t N, bool TF>
    const T* begin(const StaticVector<T, N, TF>& v)
    {
        return v.begin();
    }
    template <typename T, bool TF>
    T* end(DynamicVector<T, TF>& v)
    {
        return v.end();
    }
    template <typename T, size_t N, bool TF>
    T* end(StaticVector<T, N, TF>& v)
    {
        return v.end();
    }
    template <typename T, bool TF>
    const T* end(const DynamicVector<T, TF>& v)
    {
        return v.end();
    }
    template <typename T, size_t N, bool TF>
    const T* end(const StaticVector<T, N, TF>& v)
    {
        return v.end();
    }
    // componentwise product
    template <typename A, typename B, bool TF>
    DynamicVector<typename shim::Promote<A, B>::Type, TF> operator*(const DynamicVector<A, TF>& a,
                                                                    const DynamicVector<B, TF>& b)
    {
        if(a.size() != b.size()) throw std::invalid_argument("Vector sizes do not match");
        DynamicVector<typename shim::Promote<A, B>::Type, TF> r(a.size());
        for(size_t i = 0; i < a.size(); ++i) r[i] = a[i] * b[i];
        return r;
    }
    template <typename T, bool TF>
    void clear(DynamicVector<T, TF>& v)
    {
        v.clear();
    }

    // ------------------------------------------------------------------ CompressedVector
    template <typename T, bool TF = columnVector>
    class CompressedVector
    {
    public:
        using ElementType = T;

    private:
        size_t _size = 0;
        std::vector<std::pair<size_t, T>> _e;

    public:
        CompressedVector() {}
        explicit CompressedVector(size_t n) : _size(n) {}
        size_t size() const { return _size; }
        size_t nonZeros() const { return _e.size(); }
        void reset() { _e.clear(); }
        T& operator[](size_t i)
        {
            assert(i < _size);
            auto it = std::lower_bound(_e.begin(), _e.end(), i,
                                       [](const std::pair<size_t, T>& p, size_t k) { return p.first < k; });
            if(it == _e.end() || it->first != i) it = _e.insert(it, std::make_pair(i, T()));
            return it->second;
        }
        T operator[](size_t i) const
        {
            assert(i < _size);
            for(auto& p : _e)
                if(p.first == i) return p.second;
            return T();
        }
    };

    // ------------------------------------------------------------------ DynamicMatrix
    template <typename T, bool SO = rowMajor>
    class DynamicMatrix
    {
    public:
        using ElementType = T;

    private:
        size_t _m = 0, _n = 0;
        std::vector<T> _v;

    public:
        DynamicMatrix() {}
        DynamicMatrix(size_t m, size_t n) : _m(m), _n(n), _v(m * n, shim::fresh<T>()) {}
        DynamicMatrix(size_t m, size_t n, const T& init) : _m(m), _n(n), _v(m * n, init) {}
        DynamicMatrix(std::initializer_list<std::initializer_list<T>> l) : _m(l.size()), _n(0)
        {
            for(auto& r : l) _n = std::max(_n, r.size());
            for(auto& r : l) {
                _v.insert(_v.end(), r.begin(), r.end());
                _v.insert(_v.end(), _n - r.size(), T());
            }
        }
        size_t rows() const { return _m; }
        size_t columns() const { return _n; }
        T& operator()(size_t i, size_t j)
        {
            assert(i < _m && j < _n);
            return _v[i * _n + j];
        }
        const T& operator()(size_t i, size_t j) const
        {
            assert(i < _m && j < _n);
            return _v[i * _n + j];
        }
        void reset() { std::fill(_v.begin(), _v.end(), T()); }
        void resize(size_t m, size_t n, bool preserve = true)
        {
            std::vector<T> v(m * n, shim::poison<T>());
            if(preserve)
                for(size_t i = 0; i < std::min(m, _m); ++i)
                    for(size_t j = 0; j < std::min(n, _n); ++j) v[i * n + j] = (*this)(i, j);
            _m = m;
            _n = n;
            _v.swap(v);
        }
        size_t nonZeros() const
        {
            return size_t(std::count_if(_v.begin(), _v.end(), [](const T& t) { return t != T(); }));
        }
        template <typename S>
        typename std::enable_if<shim::IsScalar<S>::value, DynamicMatrix&>::type
        operator*=(const S& s)
        {
            for(auto& x : _v) x *= s;
            return *this;
        }
        template <typename S>
        typename std::enable_if<shim::IsScalar<S>::value, DynamicMatrix&>::type
        operator/=(const S& s)
        {
            for(auto& x : _v) x /= s;
            return *this;
        }
        DynamicMatrix& operator=(const T& x)
        {
            std::fill(_v.begin(), _v.end(), x);
            return *this;
        }
        DynamicMatrix& operator+=(const DynamicMatrix& o)
        {
            if(_m != o._m || _n != o._n) throw std::invalid_argument("Matrix sizes do not match");
            for(size_t i = 0; i < _v.size(); ++i) _v[i] += o._v[i];
            return *this;
        }
        DynamicMatrix& operator-=(const DynamicMatrix& o)
        {
            if(_m != o._m || _n != o._n) throw std::invalid_argument("Matrix sizes do not match");
            for(size_t i = 0; i < _v.size(); ++i) _v[i] -= o._v[i];
            return *this;
        }
        T& at(size_t i, size_t j)
        {
            if(i >= _m || j >= _n) throw std::out_of_range("Invalid matrix access index");
            return _v[i * _n + j];
        }
        const T& at(size_t i, size_t j) const
        {
            if(i >= _m || j >= _n) throw std::out_of_range("Invalid matrix access index");
            return _v[i * _n + j];
        }
        T* begin(size_t i) { return _v.data() + i * _n; }
        T* end(size_t i) { return _v.data() + (i + 1) * _n; }
        const T* begin(size_t i) const { return _v.data() + i * _n; }
        const T* end(size_t i) const { return _v.data() + (i + 1) * _n; }
        const T* cbegin(size_t i) const { return begin(i); }
        const T* cend(size_t i) const { return end(i); }
        void clear()
        {
            _m = _n = 0;
            _v.clear();
        }
        bool operator==(const DynamicMatrix& o) const
        {
            return _m == o._m && _n == o._n && _v == o._v;
        }
        bool operator!=(const DynamicMatrix& o) const { return !(*this == o); }
    };
    template <typename A, typename B, bool SO>
    DynamicVector<typename shim::Promote<A, B>::Type, columnVector>
    operator*(const DynamicMatrix<A, SO>& m, const DynamicVector<B, columnVector>& v)
    {
        if(m.columns() != v.size()) throw std::invalid_argument("Matrix and vector sizes do not match");
        DynamicVector<typename shim::Promote<A, B>::Type, columnVector> r(
            m.rows(), typename shim::Promote<A, B>::Type());
        for(size_t i = 0; i < m.rows(); ++i)
            for(size_t j = 0; j < m.columns(); ++j) r[i] += m(i, j) * v[j];
        return r;
    }

    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator+(DynamicMatrix<T, SO> a, const DynamicMatrix<T, SO>& b)
    {
        return a += b;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator-(DynamicMatrix<T, SO> a, const DynamicMatrix<T, SO>& b)
    {
        return a -= b;
    }
    template <typename T, bool SO, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, DynamicMatrix<T, SO>>::type
    operator*(DynamicMatrix<T, SO> a, const S& s)
    {
        return a *= s;
    }
    template <typename T, bool SO, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, DynamicMatrix<T, SO>>::type
    operator*(const S& s, DynamicMatrix<T, SO> a)
    {
        return a *= s;
    }
    template <typename M>
    auto rows(const M& m) -> decltype(m.columns(), m.rows())
    {
        return m.rows();
    }
    template <typename M>
    auto columns(const M& m) -> decltype(m.rows(), m.columns())
    {
        return m.columns();
    }

    // ------------------------------------------------------------------ CompressedMatrix
    template <typename T, bool SO = rowMajor>
    class CompressedMatrix
    {
    public:
        using ElementType = T;
        struct Element {
            size_t i;
            T v;
            size_t index() const { return i; }
            const T& value() const { return v; }
            T& value() { return v; }
        };
        using Iterator      = typename std::vector<Element>::iterator;
        using ConstIterator = typename std::vector<Element>::const_iterator;

    private:
        static_assert(SO == rowMajor, "only row-major compressed matrices are modelled");
        size_t _m = 0, _n = 0, _capacity = 0;
        std::vector<std::vector<Element>> _rows;
        // assembly monitor
        size_t _next_row = 0; // next row to be finalised
        bool _lowlevel   = false;

        template <typename... Ts>
        static std::string text(const Ts&... ts)
        {
            std::string s;
            int dummy[] = {0, (s += ts, 0)...};
            (void) dummy;
            return s;
        }
        static std::string num(size_t i) { return std::to_string(i); }

    public:
        CompressedMatrix() {}
        CompressedMatrix(size_t m, size_t n) : _m(m), _n(n), _rows(m) { ++shim::monitor().matrices; }
        CompressedMatrix(size_t m, size_t n, size_t nonzeros) : CompressedMatrix(m, n) { _capacity = nonzeros; }
        CompressedMatrix(size_t m, size_t n, const std::vector<size_t>& nonzeros) : CompressedMatrix(m, n)
        {
            for(auto x : nonzeros) _capacity += x;
        }

        size_t rows() const { return _m; }
        size_t columns() const { return _n; }
        size_t capacity() const { return _capacity; }
        size_t nonZeros() const
        {
            size_t n = 0;
            for(auto& r : _rows) n += r.size();
            return n;
        }
        size_t nonZeros(size_t i) const { return _rows.at(i).size(); }
        Iterator begin(size_t i) { return _rows.at(i).begin(); }
        Iterator end(size_t i) { return _rows.at(i).end(); }
        ConstIterator begin(size_t i) const { return _rows.at(i).begin(); }
        ConstIterator end(size_t i) const { return _rows.at(i).end(); }
        ConstIterator cbegin(size_t i) const { return _rows.at(i).begin(); }
        ConstIterator cend(size_t i) const { return _rows.at(i).end(); }
        size_t capacity(size_t i) const { return _rows.at(i).capacity(); }

        // low-level assembly state, for monitors
        size_t finalized_rows() const { return _next_row; }

        void reset()
        {
            for(auto& r : _rows) r.clear();
            _next_row = 0;
            _lowlevel = false;
            _count    = 0;
        }
        void clear()
        {
            _m = _n = 0;
            _rows.clear();
            _next_row = 0;
            _count    = 0;
        }
        void resize(size_t m, size_t n, bool preserve = true)
        {
            if(m == _m && n == _n) return; // Blaze: no-op
            _rows.resize(m);
            for(auto& r : _rows) {
                if(!preserve) {
                    r.clear();
                } else {
                    r.erase(std::remove_if(r.begin(), r.end(),
                                           [n](const Element& e) { return e.i >= n; }),
                            r.end());
                }
            }
            _m        = m;
            _n        = n;
            _next_row = 0;
            _count    = nonZeros();
        }
        void reserve(size_t nonzeros)
        {
            ++shim::monitor().reserves;
            _capacity = std::max(_capacity, nonzeros);
        }
        void reserve(size_t i, size_t nonzeros)
        {
            ++shim::monitor().reserves;
            if(_rows.at(i).size() < nonzeros) {
                _capacity += nonzeros - _rows.at(i).size();
            }
        }

        void append(size_t i, size_t j, const T& value, bool check = false)
        {
            auto& mon = shim::monitor();
            ++mon.appends;
            _lowlevel = true;
            if(i >= _m || j >= _n) {
                mon.breach(text("append(", num(i), ",", num(j), ") outside a ", num(_m), "x",
                                num(_n), " matrix"));
                return;
            }
            if(check && value == T()) return;
            if(nonZeros_fast() + 1 > _capacity) {
                mon.breach(text("append(", num(i), ",", num(j), ") exceeds the reserved capacity of ",
                                num(_capacity)));
            }
            if(i != _next_row) {
                mon.breach(text("append to row ", num(i), " while row ", num(_next_row),
                                " is the next row to be finalised"));
            }
            auto& r = _rows[i];
            if(!r.empty() && r.back().i >= j) {
                mon.breach(text("append(", num(i), ",", num(j),
                                ") after column ", num(r.back().i),
                                " of the same row: columns must be strictly ascending"));
            }
            r.push_back(Element{j, value});
            ++_count;
            mon.max_row = std::max<uint64_t>(mon.max_row, r.size());
        }
        void finalize(size_t i)
        {
            auto& mon = shim::monitor();
            ++mon.finalizes;
            if(i != _next_row) {
                mon.breach(text("finalize(", num(i), ") but row ", num(_next_row), " is next"));
            }
            _next_row = i + 1;
        }

        Iterator insert(size_t i, size_t j, const T& value)
        {
            auto& r = _rows.at(i);
            auto it = lower(r, j);
            if(it != r.end() && it->i == j) throw std::invalid_argument("Bad access index");
            inserted();
            return r.insert(it, Element{j, value});
        }
        Iterator set(size_t i, size_t j, const T& value)
        {
            auto& r = _rows.at(i);
            auto it = lower(r, j);
            if(it == r.end() || it->i != j) {
                inserted();
                return r.insert(it, Element{j, value});
            }
            it->v = value;
            return it;
        }
        void erase(size_t i, size_t j)
        {
            auto& r = _rows.at(i);
            auto it = lower(r, j);
            if(it != r.end() && it->i == j) {
                r.erase(it);
                --_count;
            }
        }
        void trim() { _capacity = nonZeros(); }
        void trim(size_t) {}
        void shrinkToFit() { trim(); }
        Iterator lowerBound(size_t i, size_t j) { return lower(_rows.at(i), j); }
        ConstIterator find(size_t i, size_t j) const
        {
            return const_cast<CompressedMatrix&>(*this).find(i, j);
        }
        bool operator==(const CompressedMatrix& o) const
        {
            if(_m != o._m || _n != o._n) return false;
            for(size_t i = 0; i < _m; ++i)
                for(size_t j = 0; j < _n; ++j)
                    if(!((*this)(i, j) == o(i, j))) return false;
            return true;
        }
        bool operator!=(const CompressedMatrix& o) const { return !(*this == o); }
        void swap(CompressedMatrix& o) { std::swap(*this, o); }
        Iterator find(size_t i, size_t j)
        {
            auto& r = _rows.at(i);
            auto it = lower(r, j);
            return (it != r.end() && it->i == j) ? it : r.end();
        }
        T& operator()(size_t i, size_t j)
        {
            assert(i < _m && j < _n);
            auto& r = _rows[i];
            auto it = lower(r, j);
            if(it == r.end() || it->i != j) it = r.insert(it, Element{j, T()});
            return it->v;
        }
        const T& operator()(size_t i, size_t j) const
        {
            assert(i < _m && j < _n);
            static const T zero = T();
            for(auto& e : _rows[i])
                if(e.i == j) return e.v;
            return zero;
        }
        template <typename S>
        typename std::enable_if<shim::IsScalar<S>::value, CompressedMatrix&>::type
        operator*=(const S& s)
        {
            for(auto& r : _rows)
                for(auto& e : r) e.v *= s;
            return *this;
        }
        template <typename S>
        typename std::enable_if<shim::IsScalar<S>::value, CompressedMatrix&>::type
        operator/=(const S& s)
        {
            for(auto& r : _rows)
                for(auto& e : r) e.v /= s;
            return *this;
        }
        template <typename S>
        CompressedMatrix& scale(const S& s)
        {
            return *this *= s;
        }

    private:
        size_t _count = 0;
        void inserted()
        {
            ++shim::monitor().inserts;
            ++_count;
            _capacity = std::max(_capacity, _count);
        }
        size_t nonZeros_fast() const { return _count; }
        static Iterator lower(std::vector<Element>& r, size_t j)
        {
            return std::lower_bound(r.begin(), r.end(), j,
                                    [](const Element& e, size_t k) { return e.i < k; });
        }
    };
    template <typename T, bool SO, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, CompressedMatrix<T, SO>>::type
    operator*(CompressedMatrix<T, SO> a, const S& s)
    {
        return a *= s;
    }
    template <typename T, bool SO, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, CompressedMatrix<T, SO>>::type
    operator*(const S& s, CompressedMatrix<T, SO> a)
    {
        return a *= s;
    }
    template <typename T, bool SO, typename S>
    typename std::enable_if<shim::IsScalar<S>::value, CompressedMatrix<T, SO>>::type
    operator/(CompressedMatrix<T, SO> a, const S& s)
    {
        return a /= s;
    }
    template <typename A, typename B, bool SO>
    DynamicVector<typename shim::Promote<A, B>::Type, columnVector>
    operator*(const CompressedMatrix<A, SO>& m, const DynamicVector<B, columnVector>& v)
    {
        if(m.columns() != v.size()) throw std::invalid_argument("Matrix and vector sizes do not match");
        DynamicVector<typename shim::Promote<A, B>::Type, columnVector> r(
            m.rows(), typename shim::Promote<A, B>::Type());
        for(size_t i = 0; i < m.rows(); ++i)
            for(auto it = m.begin(i); it != m.end(i); ++it) r[i] += it->value() * v[it->index()];
        return r;
    }

    // ------------------------------------------------------------------ serialization
    template <typename Stream>
    class Archive
    {
        Stream& _s;

        void raw(const void* p, size_t n) { _s.write(static_cast<const char*>(p), std::streamsize(n)); }
        void get(void* p, size_t n) { _s.read(static_cast<char*>(p), std::streamsize(n)); }

    public:
        explicit Archive(Stream& s) : _s(s) {}
        explicit operator bool() const { return !!_s; }

        template <typename T, bool TF>
        Archive& operator<<(const DynamicVector<T, TF>& v)
        {
            uint64_t h[2] = {0x424c5a5645435431ull, v.size()};
            raw(h, sizeof h);
            raw(v.begin(), v.size() * sizeof(T));
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator<<(const CompressedMatrix<T, SO>& m)
        {
            uint64_t h[4] = {0x424c5a4d41545231ull, m.rows(), m.columns(), m.nonZeros()};
            raw(h, sizeof h);
            for(size_t i = 0; i < m.rows(); ++i)
                for(auto it = m.begin(i); it != m.end(i); ++it) {
                    uint64_t e[2] = {i, it->index()};
                    raw(e, sizeof e);
                    raw(&it->value(), sizeof(T));
                }
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator>>(CompressedMatrix<T, SO>& m)
        {
            uint64_t h[4] = {0, 0, 0, 0};
            get(h, sizeof h);
            if(!_s || h[0] != 0x424c5a4d41545231ull) throw std::runtime_error("Corrupt archive detected");
            m = CompressedMatrix<T, SO>(h[1], h[2]);
            for(uint64_t k = 0; k < h[3]; ++k) {
                uint64_t e[2] = {0, 0};
                T x{};
                get(e, sizeof e);
                get(&x, sizeof x);
                if(!_s || e[0] >= h[1] || e[1] >= h[2])
                    throw std::runtime_error("Corrupt archive detected");
                m(e[0], e[1]) = x;
            }
            return *this;
        }
        template <typename T, bool TF>
        Archive& operator>>(DynamicVector<T, TF>& v)
        {
            uint64_t h[2] = {0, 0};
            get(h, sizeof h);
            if(!_s || h[0] != 0x424c5a5645435431ull) throw std::runtime_error("Corrupt archive detected");
            v.resize(h[1], false);
            get(v.begin(), v.size() * sizeof(T));
            if(!_s) throw std::runtime_error("Corrupt archive detected");
            return *this;
        }
    };
} // namespace blaze

#endif
