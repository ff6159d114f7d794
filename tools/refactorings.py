# Behaviour-preserving rewrites of /repo, used by tools/quiet.py to see that no check raises an alarm.
# dict(id, edits=[(file, old, new)...]); batch: refactorings of one batch do not overlap.
I = "include/ieompp/"
M = I + "models/hubbard_momentum_space/"
R = I + "models/hubbard_real_space/"
S = "src/hubbard/"
REF = []


def ref(id, *edits, batch=1):
    REF.append(dict(id=id, edits=edits, batch=batch))


ref("commutator-zero-based", (I + "algebra/commutator.hpp", """            for(std::size_t k = 1; k <= n; ++k) {
                for(std::size_t l = 1; l <= m; ++l) {
                    if(anticommutates(a_ops[k - 1], b_ops[l - 1])) {
                        continue;
                    }

                    const auto sign = (m * (n - k) + l - 1) % 2 ? -1 : 1;
""", """            for(std::size_t k_ = 0; k_ < n; ++k_) {
                const auto k = k_ + 1;
                for(std::size_t l_ = 0; l_ < m; ++l_) {
                    const auto l = l_ + 1;
                    const auto& op_a = a_ops[k_];
                    const auto& op_b = b_ops[l_];
                    if(anticommutates(op_a, op_b)) {
                        continue;
                    }

                    const bool odd  = ((m * (n - 1 - k_)) & 1u) != (l_ & 1u);
                    const auto sign = odd ? -1 : 1;
"""), (I + "algebra/commutator.hpp", """                    if(k > 1) {
                        std::copy(a_ops.begin(), a_ops.begin() + static_cast<iter_diff_type>(k - 1),
                                  std::back_inserter(new_ops));
                    }
                    if(l > 1) {
                        std::copy(b_ops.begin(), b_ops.begin() + static_cast<iter_diff_type>(l - 1),
                                  std::back_inserter(new_ops));
                    }
""", """                    new_ops.reserve(n + m - 2);
                    std::copy_n(a_ops.begin(), k_, std::back_inserter(new_ops));
                    std::copy_n(b_ops.begin(), l_, std::back_inserter(new_ops));
"""))
ref("commutator-loops-swapped", (I + "algebra/commutator.hpp", """            for(std::size_t k = 1; k <= n; ++k) {
                for(std::size_t l = 1; l <= m; ++l) {
""", """            for(std::size_t l = 1; l <= m; ++l) {
                for(std::size_t k = 1; k <= n; ++k) {
"""), batch=2)
ref("anticommutates-or", (I + "algebra/anticommutator.hpp", """                    if(IsSymbolicIndex<I, Operator>::value) {
                        return AnticommutatesHelper<Operator, I + 1, N>::call(a, b);
                    }
                    if(get_index<I>(a) != get_index<I>(b)) {
                        return true;
                    }
                    return AnticommutatesHelper<Operator, I + 1, N>::call(a, b);
""", """                    const bool differ
                        = !IsSymbolicIndex<I, Operator>::value && get_index<I>(a) != get_index<I>(b);
                    return differ || AnticommutatesHelper<Operator, I + 1, N>::call(a, b);
"""))
ref("unique-terms-vector", (I + "algebra/term/list.hpp", """            std::list<Term> lst;
            for(auto& t : original) {
                auto pos = std::lower_bound(lst.begin(), lst.end(), t, smaller);
                if(pos == lst.end()) {
                    lst.push_back(t);
                    continue;
                }
                if(pos->have_same_operators(t)) {
                    pos->prefactor += t.prefactor;
                } else {
                    lst.insert(pos, t);
                }
            }
            std::copy(lst.begin(), lst.end(), std::back_inserter(result));
""", """            std::vector<Term> collected;
            for(const auto& t : original) {
                const auto pos
                    = std::lower_bound(collected.begin(), collected.end(), t, smaller);
                if(pos != collected.end() && pos->have_same_operators(t)) {
                    pos->prefactor += t.prefactor;
                } else {
                    collected.insert(pos, t);
                }
            }
            for(auto& t : collected) {
                result.insert(result.end(), std::move(t));
            }
"""), (I + "algebra/term/list.hpp", "#include <list>\n", "#include <vector>\n"))
ref("term-conjugate", (I + "algebra/term/term.hpp", """                prefactor = types::conjugate(prefactor);
                std::reverse(operators.begin(), operators.end());
                for(auto& op : operators) {
                    op.conjugate();
                }
""", """                *this = get_conjugate();
"""), (I + "algebra/term/term.hpp", """                if(this == &rhs) {
                    return *this *= Term(rhs);
                }
                prefactor *= rhs.prefactor;
                std::copy(rhs.operators.begin(), rhs.operators.end(),
                          std::back_inserter(operators));
                return *this;
""", """                return *this = *this * rhs;
"""), (I + "algebra/term/term.hpp", """                if(operators.size() != rhs.operators.size()) {
                    return false;
                }
                return std::equal(operators.begin(), operators.end(), rhs.operators.begin());
""", """                return std::equal(operators.begin(), operators.end(), rhs.operators.begin(),
                                  rhs.operators.end());
"""))
ref("monomial", (I + "algebra/monomial/monomial.hpp", """                Monomial conj;
                std::reverse_copy(this->begin(), this->end(), std::back_inserter(conj));
                for(auto& op : conj) {
                    op.conjugate();
                }
                return conj;
""", """                Monomial conj;
                conj.reserve(this->size());
                for(auto it = this->rbegin(); it != this->rend(); ++it) {
                    conj.push_back(it->get_conjugate());
                }
                return conj;
"""), (I + "algebra/monomial/monomial.hpp", """                if(this->size() != rhs.size()) {
                    return true;
                }
                return !std::equal(this->begin(), this->end(), rhs.begin());
""", """                return !(*this == rhs);
"""), (I + "algebra/monomial/monomial.hpp", """                auto it_1 = this->begin();
                auto it_2 = mon.rbegin();

                for(; it_1 != this->end(); ++it_1, ++it_2) {
                    if(!it_1->is_conjugate(*it_2)) {
                        return false;
                    }
                }

                return true;
""", """                const auto n = this->size();
                for(std::size_t i = 0; i < n; ++i) {
                    if(!(*this)[i].is_conjugate(mon[n - 1 - i])) {
                        return false;
                    }
                }
                return true;
"""))
ref("order-greater", (I + "algebra/operator/order.hpp", """                return detail::OperatorComparisonHelper<Operator,
                                                        Operator::number_of_indices>::greater(a, b);
""", """                return OperatorSmaller<Operator>()(b, a);
"""), (I + "algebra/term/order.hpp", """                static const OperatorGreater<typename Term::Operator> op_greater{};

                auto size_a = a.operators.size();
                auto size_b = b.operators.size();
                if(size_a != size_b) {
                    return size_a > size_b;
                }
                for(auto it_a = a.operators.begin(), it_b = b.operators.begin();
                    it_a != a.operators.end(); ++it_a, ++it_b) {
                    if(*it_a != *it_b) {
                        return op_greater(*it_a, *it_b);
                    }
                }
                return false;
""", """                return TermSmaller<Term>()(b, a);
"""))
ref("operator", (I + "algebra/operator/operator.hpp", """                return (creator != rhs.creator) || (index1 != rhs.index1) || (index2 != rhs.index2);
""", """                return !(*this == rhs);
"""), (I + "algebra/operator/operator.hpp", """                return (creator == rhs.creator) && (index1 == rhs.index1) && (index2 == rhs.index2);
""", """                return std::tie(creator, index1, index2)
                       == std::tie(rhs.creator, rhs.index1, rhs.index2);
"""))
ref("term-checks", (I + "algebra/term/checks.hpp", """                if(op.creator) {
                    spin += get_index<Index>(op) ? 1 : -1;
                } else {
                    spin -= get_index<Index>(op) ? 1 : -1;
                }
""", """                const int s = get_index<Index>(op) ? 1 : -1;
                spin += op.creator ? s : -s;
"""), (I + "algebra/term/checks.hpp", """            typename Discretization::Vector momentum(momentum_space.lattice_vectors()[0]);
            momentum -= momentum_space.lattice_vectors()[0];
            for(auto& op : t.operators) {
                if(op.creator) {
                    momentum += momentum_space[get_index<Index>(op)];
                } else {
                    momentum -= momentum_space[get_index<Index>(op)];
                }
            }
            return momentum;
""", """            using Vector = typename Discretization::Vector;
            const Vector lattice_vector(momentum_space.lattice_vectors()[0]);
            Vector created(lattice_vector - lattice_vector);
            Vector annihilated(created);
            for(const auto& op : t.operators) {
                const Vector k = momentum_space[get_index<Index>(op)];
                (op.creator ? created : annihilated) += k;
            }
            return created - annihilated;
"""))
ref("kronecker", (I + "algebra/kronecker.hpp", """                if(a > b) {
                    std::swap(a, b);
                }
""", """                if(b < a) {
                    a.swap(b);
                }
"""), (I + "algebra/kronecker.hpp", """                return !(*this == rhs);
""", """                return (a != rhs.a || b != rhs.b) && (a != rhs.b || b != rhs.a);
"""), (I + "symbolic/prefactor.hpp", """                              if(a.a < b.a) {
                                  return true;
                              }
                              if(a.a > b.a) {
                                  return false;
                              }
                              return a.b < b.b;
""", """                              return std::tie(a.a, a.b) < std::tie(b.a, b.b);
"""), (I + "symbolic/prefactor.hpp", "#include <ostream>\n", "#include <ostream>\n#include <tuple>\n"))
ref("chain-modulo", (I + "lattices/periodic_chain.hpp", """            return std::array<SiteIndex, 2>{
                {(idx > 0) ? idx - 1 : _last, (idx < _last) ? idx + 1 : _first}};
""", """            const SiteIndex left  = (idx == _first) ? _last : idx - 1;
            const SiteIndex right = unique_neighbors(idx)[0];
            return std::array<SiteIndex, 2>{{left, right}};
"""), (I + "lattices/periodic_chain.hpp", """            return std::array<SiteIndex, 1>{{(idx < _last) ? idx + 1 : _first}};
""", """            return std::array<SiteIndex, 1>{{static_cast<SiteIndex>((idx + 1) % _size)}};
"""), (I + "lattices/periodic_chain.hpp", """            const SiteIndex dist = (b > a) ? b - a : a - b;
            return std::min(dist, _size - dist);
""", """            SiteIndex forward = (b >= a) ? b - a : _size - (a - b);
            SiteIndex backward = _size - forward;
            return forward < backward ? forward : backward;
"""), (I + "lattices/periodic_chain.hpp", """            return ((a + 1) % _size == b) || ((b + 1) % _size == a);
""", """            const auto n = neighbors(a);
            return n[0] == b || n[1] == b;
"""), (I + "lattices/periodic_chain.hpp", """            while(v < _x_min) {
                v += _x_length;
            }
            while(v >= _x_min + _x_length) {
                v -= _x_length;
            }
            return SiteIndex(std::round((v - _x_min) / _dx)) % _size;
""", """            v -= _x_length * std::floor((v - _x_min) / _x_length);
            const auto steps = static_cast<SiteIndex>(std::lround((v - _x_min) / _dx));
            return (steps == _size) ? SiteIndex(0) : steps;
"""), (I + "lattices/periodic_chain.hpp", """            Float min_dist = ((*this)[SiteIndex(0)] - v) * ((*this)[SiteIndex(0)] - v), dist;
            SiteIndex min  = 0;
            for(auto idx : *this) {
                dist = ((*this)[idx] - v) * ((*this)[idx] - v);
                if(dist < min_dist) {
                    std::swap(dist, min_dist);
                    min = idx;
                }
            }
            return min;
""", """            SiteIndex best      = 0;
            Float best_distance = std::abs((*this)[best] - v);
            for(SiteIndex idx = 1; idx < _size; ++idx) {
                const Float distance = std::abs((*this)[idx] - v);
                if(distance < best_distance) {
                    best_distance = distance;
                    best          = idx;
                }
            }
            return best;
"""))
ref("square-helpers", (I + "lattices/periodic_square_lattice.hpp", """            const auto i = idx / _size_y;
            const auto j = idx % _size_y;
            return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                         index(i, (j == 0) ? _size_y - 1 : j - 1),
                                         index((i == _size_x - 1) ? 0 : i + 1, j),
                                         index(i, (j == _size_y - 1) ? 0 : j + 1)}};
""", """            const Index i = x_index(idx), j = y_index(idx);
            const auto next = [](Index c, Index n) -> Index { return c + 1 == n ? 0 : c + 1; };
            const auto prev = [](Index c, Index n) -> Index { return c == 0 ? n - 1 : c - 1; };
            return std::array<Index, 4>{{index(prev(i, _size_x), j), index(i, prev(j, _size_y)),
                                         index(next(i, _size_x), j), index(i, next(j, _size_y))}};
"""), (I + "lattices/periodic_square_lattice.hpp", """            const Index i = idx / _size_y;
            const Index j = idx % _size_y;
            return Vector{_x_min + i * _dx, _y_min + j * _dy};
""", """            return Vector{_x_min + x_index(idx) * _dx, _y_min + y_index(idx) * _dy};
"""), (I + "lattices/periodic_square_lattice.hpp", """            if(x_a == x_b) {
                return ((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a);
            }

            if(y_a == y_b) {
                return ((x_a + 1) % _size_x == x_b) || ((x_b + 1) % _size_x == x_a);
            }

            return false;
""", """            const bool next_y = ((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a);
            const bool next_x = ((x_a + 1) % _size_x == x_b) || ((x_b + 1) % _size_x == x_a);
            return x_a == x_b ? next_y : (y_a == y_b && next_x);
"""), (I + "lattices/periodic_square_lattice.hpp", """            Float dist;
            Index min = 0;
            for(auto idx : *this) {
                dist = types::dot_product(v - (*this)[idx], v - (*this)[idx]);
                if(dist < min_dist) {
                    std::swap(min_dist, dist);
                    min = idx;
                }
            }
            return min;
""", """            Index min = 0;
            for(Index idx = 1; idx < _size; ++idx) {
                const Vector difference = v - (*this)[idx];
                const Float dist        = types::dot_product(difference, difference);
                if(dist < min_dist) {
                    min_dist = dist;
                    min      = idx;
                }
            }
            return min;
"""))
ref("iterator", (I + "iterators/integer_iterator.hpp", "            return _val <= rhs._val;", "            return !(rhs < *this);"),
    (I + "iterators/integer_iterator.hpp", "            return _val >= rhs._val;", "            return !(*this < rhs);"),
    (I + "iterators/integer_iterator.hpp", "            return _val != rhs._val;", "            return !(*this == rhs);"),
    (I + "iterators/integer_iterator.hpp", "            return IntegerIterator<T, const_iterator>(_val + diff);", "            IntegerIterator<T, const_iterator> it(*this);\n            it += diff;\n            return it;"))
ref("dispersion", (I + "models/hubbard/dispersion.hpp", """#pragma omp parallel for
                    for(typename MomentumSpace::SiteIndex i = 0; i < N; ++i) {
                        const auto& momentum = momentum_space[i];
                        Float val            = 0.;
                        for(const auto& vec : lattice_vectors) {
                            val += std::cos(types::dot_product(momentum, vec));
                        }
                        _values[i] = -2. * J * val;
                    }
""", """                    const Float prefactor = -2. * J;
#pragma omp parallel for
                    for(typename MomentumSpace::SiteIndex i = 0; i < N; ++i) {
                        const auto momentum = momentum_space[i];
                        for(const auto& vec : lattice_vectors) {
                            _values[i] += prefactor * std::cos(types::dot_product(momentum, vec));
                        }
                    }
"""))
ref("momentum-basis", (M + "basis.hpp", """                    for(auto i1 : momentum_space) {
                        const auto k1 = momentum_space[i1];
                        for(auto i2 : momentum_space) {
                            auto i3 = momentum_space(k1 + momentum_space[i2] - q);
                            this->emplace_back(Monomial{
                                {{true, i1, true}, {true, i2, false}, {false, i3, false}}});
                        }
                    }
""", """                    for(const auto i1 : momentum_space) {
                        const auto rest = momentum_space[i1] - q;
                        for(const auto i2 : momentum_space) {
                            const auto i3 = momentum_space(momentum_space[i2] + rest);
                            Monomial monomial{{{true, i1, true}, {true, i2, false}}};
                            monomial.push_back({false, i3, false});
                            this->push_back(std::move(monomial));
                        }
                    }
"""), (M + "basis.hpp", """                    Basis3Operator conj_basis(*this);

                    const auto size = this->size();
#pragma omp parallel for
                    for(BasisIndex i = 0; i < size; ++i) {
                        conj_basis[i].conjugate();
                    }

                    return conj_basis;
""", """                    auto conj_basis = *this;
                    conj_basis.conjugate();
                    return conj_basis;
"""), (M + "basis.hpp", "return 1 + i1 * N + i2;", "return i2 + N * i1 + 1;"))
ref("fermi-sea", (M + "excited_fermi_sea.hpp", """                    for(auto it = monomial.crbegin(); it != monomial.crend(); ++it) {
                        if(it->creator) {
                            create_particle(algebra::get_indices(*it), dispersion, fermi_energy);
                        } else {
                            annihilate_particle(algebra::get_indices(*it), dispersion,
                                                fermi_energy);
                        }
                        if(vanishes) {
                            break;
                        }
                    }

                    if(!vanishes) {
                        created_particles.sort();
                        annihilated_particles.sort();
                    }

                    return vanishes;
""", """                    for(auto n = monomial.size(); n > 0 && !vanishes; --n) {
                        apply_operator(monomial[n - 1], dispersion, fermi_energy);
                    }
                    return vanishes;
"""), (M + "excited_fermi_sea.hpp", """                        auto pos = std::find(annihilated_particles.begin(),
                                             annihilated_particles.end(), indices);
                        if(pos == annihilated_particles.end()) {
                            // particle is still present -> annihilate it
                            annihilated_particles.push_back(indices);
                            return true;
                        }
                        // particle has been annihilated -> annihilation is not possible
                        vanishes = true;
                        return false;
                    }
""", """                        const bool gone
                            = std::count(annihilated_particles.begin(), annihilated_particles.end(),
                                         indices)
                              != 0;
                        if(gone) {
                            vanishes = true;
                        } else {
                            annihilated_particles.push_back(indices);
                        }
                        return !gone;
                    }
"""))
ref("non-vanishing-reordered", (M + "non_vanishing_expectation_values.hpp", """                    for(BasisIndex i = 0; i < basis_size; ++i) {
                        states[i].apply_monomial(conjugate_basis[i], dispersion, fermi_energy);
                    }
""", """#pragma omp parallel for
                    for(BasisIndex i = 0; i < basis_size; ++i) {
                        states[i].apply_monomial(conjugate_basis[i], dispersion, fermi_energy);
                    }
"""), (M + "non_vanishing_expectation_values.hpp", """                    for(BasisIndex i = 1; i < basis_size; ++i) {
                        for(BasisIndex j = 1; j < basis_size; ++j) {
""", """                    for(BasisIndex j = 1; j < basis_size; ++j) {
                        for(BasisIndex i = 1; i < basis_size; ++i) {
"""), (M + "non_vanishing_expectation_values.hpp", """                                  if(a.left_index < b.left_index) {
                                      return true;
                                  }
                                  if(a.left_index == b.left_index) {
                                      return (a.right_index < b.right_index);
                                  }
                                  return false;
""", """                                  return a.left_index != b.left_index
                                             ? a.left_index < b.left_index
                                             : a.right_index < b.right_index;
"""))
ref("particle-number", (M + "particle_number.hpp", """                        if(contribution.left_index == contribution.right_index) {
                            result += std::norm(vec[contribution.left_index]) * contribution.value;
                        } else {
                            result += types::multiply_with_conjugate(vec[contribution.left_index],
                                                                     vec[contribution.right_index])
                                      * contribution.value;
                        }
""", """                        const std::complex<Float> left = vec[contribution.left_index];
                        const std::complex<Float> right = vec[contribution.right_index];
                        result += contribution.value * (left * std::conj(right));
"""))
ref("momentum-matrix", (M + "blaze_sparse.hpp", """                    const auto& monomial = basis[row];

                    // add off-diagonal element
                    matrix.append(row, 0, interaction2);

                    // add diagonal element
                    matrix.append(row, row, liouvillian.dispersion(monomial[0].index1)
                                                + liouvillian.dispersion(monomial[1].index1)
                                                - liouvillian.dispersion(monomial[2].index1)
                                                + interaction1);
                    matrix.finalize(row);
""", """                    auto diagonal = interaction1;
                    for(const auto& factor : basis[row]) {
                        const auto energy = liouvillian.dispersion(factor.index1);
                        diagonal += factor.creator ? energy : -energy;
                    }
                    matrix.append(row, 0, interaction2);
                    matrix.append(row, row, diagonal);
                    matrix.finalize(row);
"""), (M + "blaze_sparse.hpp", "return basis.N * (1 + 3 * basis.N);", "return 1 + 3 * (basis.size() - 1) + basis.N;"))
ref("real-basis", (R + "basis.hpp", """                    for(auto i1 : lattice) {
                        for(auto i2 : lattice) {
                            for(auto i3 : lattice) {
                                this->emplace_back(Monomial{
                                    {{true, i1, true}, {true, i2, false}, {false, i3, false}}});
                            }
                        }
                    }
""", """                    const auto begin = lattice.cbegin(), end = lattice.cend();
                    for(auto i1 = begin; i1 != end; ++i1) {
                        for(auto i2 = begin; i2 != end; ++i2) {
                            for(auto i3 = begin; i3 != end; ++i3) {
                                this->push_back(Monomial{{{true, *i1, true},
                                                          {true, *i2, false},
                                                          {false, *i3, false}}});
                            }
                        }
                    }
"""), (R + "basis.hpp", "return N + N_squared * i1 + N * i2 + i3;", "return N + (i1 * N + i2) * N + i3;"))
ref("real-matrix-helper", (R + "blaze_sparse.hpp", """                    const auto& monomial = basis[row];
                    auto neighbors       = lattice.neighbors(monomial[0].index1);
                    for(auto neighbor : neighbors) {
                        triplets.emplace_back(row, basis.get_3op_index(neighbor, monomial[1].index1,
                                                                       monomial[2].index1),
                                              -liouvillian.J);
                    }

                    neighbors = lattice.neighbors(monomial[1].index1);
                    for(auto neighbor : neighbors) {
                        triplets.emplace_back(row, basis.get_3op_index(monomial[0].index1, neighbor,
                                                                       monomial[2].index1),
                                              -liouvillian.J);
                    }

                    neighbors = lattice.neighbors(monomial[2].index1);
                    for(auto neighbor : neighbors) {
                        triplets.emplace_back(
                            row,
                            basis.get_3op_index(monomial[0].index1, monomial[1].index1, neighbor),
                            liouvillian.J);
                    }

                    if((monomial[0].index1 == monomial[1].index1)
                       && (monomial[0].index1 == monomial[2].index1)) {
                        triplets.emplace_back(row, monomial[0].index1, liouvillian.U / 2.);
                    }
                    triplets.emplace_back(row, row, liouvillian.U / 2.);
""", """                    const auto& monomial = basis[row];
                    const auto r1 = monomial[0].index1, r2 = monomial[1].index1,
                               r3 = monomial[2].index1;

                    // interaction
                    triplets.emplace_back(row, row, liouvillian.U / 2.);
                    if(r1 == r2 && r2 == r3) {
                        triplets.emplace_back(row, r1, liouvillian.U / 2.);
                    }

                    // hopping
                    for(const auto neighbor : lattice.neighbors(r3)) {
                        triplets.emplace_back(row, basis.get_3op_index(r1, r2, neighbor),
                                              liouvillian.J);
                    }
                    for(const auto neighbor : lattice.neighbors(r2)) {
                        triplets.emplace_back(row, basis.get_3op_index(r1, neighbor, r3),
                                              -liouvillian.J);
                    }
                    for(const auto neighbor : lattice.neighbors(r1)) {
                        triplets.emplace_back(row, basis.get_3op_index(neighbor, r2, r3),
                                              -liouvillian.J);
                    }
"""), (R + "blaze_sparse.hpp", "return basis.size() * 2;", "return 2 * basis.size() + basis.N;"))
ref("no-matrix-hoisted", (R + "blaze_sparse_no.hpp", """                    triplets.emplace_back(row, r1, liouvillian.U * expectation_value(op2.index1, op1.index1) * expectation_value_conj(op3.index1, op1.index1));
                    triplets.emplace_back(row, r2, liouvillian.U * expectation_value_conj(op2.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value_conj(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
""", """                    const auto& U     = liouvillian.U;
                    const auto ev21   = expectation_value(r2, r1);
                    const auto ev23   = expectation_value(r2, r3);
                    const auto conj21 = expectation_value_conj(r2, r1);
                    const auto conj31 = expectation_value_conj(r3, r1);
                    triplets.emplace_back(row, r3, -U * conj31 * ev23);
                    triplets.emplace_back(row, r2, U * conj21 * ev23);
                    triplets.emplace_back(row, r1, U * ev21 * conj31);
"""))
ref("triplets", (I + "types/triplet.hpp", """                auto triplet = this->front();
                for(auto it = this->begin() + 1; it != this->end(); ++it) {
                    if(it->column == triplet.column) {
                        triplet.value += it->value;
                    } else {
                        if(!types::IsZero(triplet.value)) {
                            filtered.push_back(triplet);
                        }
                        triplet = *it;
                    }
                }
                if(!types::IsZero(triplet.value)) {
                    filtered.push_back(triplet);
                }
                return filtered;
""", """                std::size_t first = 0;
                while(first < this->size()) {
                    auto merged      = (*this)[first];
                    std::size_t next = first + 1;
                    for(; next < this->size() && (*this)[next].column == merged.column; ++next) {
                        merged.value += (*this)[next].value;
                    }
                    if(!types::IsZero(merged.value)) {
                        filtered.push_back(merged);
                    }
                    first = next;
                }
                return filtered;
"""), (I + "types/triplet.hpp", "                std::sort(this->begin()", "                std::stable_sort(this->begin()"))
ref("site-occupation-reduction", (R + "site_occupation.hpp", """                    std::vector<std::complex<Float>> results(omp_get_max_threads(), 0);

#pragma omp parallel for schedule(dynamic, 1)
                    for(auto i = 0ul; i < size; ++i) {
                        const auto thread = omp_get_thread_num();
                        for(auto j = 0ul; j < size; ++j) {
                            results[thread] +=
                                expectation_value(basis[i], conjugate_basis[j])
                                * types::multiply_with_conjugate(vector[i], vector[j]) / 2.;
                        }
                    }

                    const auto result =
                        std::accumulate(results.begin(), results.end(), std::complex<Float>(0.));
""", """                    Float re = 0., im = 0.;
#pragma omp parallel for reduction(+ : re, im)
                    for(auto i = 0ul; i < size; ++i) {
                        for(auto j = 0ul; j < size; ++j) {
                            const auto c = expectation_value(basis[i], conjugate_basis[j])
                                           * types::multiply_with_conjugate(vector[i], vector[j])
                                           / Float(2.);
                            re += c.real();
                            im += c.imag();
                        }
                    }
                    const std::complex<Float> result(re, im);
"""), (R + "site_occupation.hpp", """                    Float ev_6 = 0.;

                    // calculate 8""", """                    Float ev_6{};
                    const auto op_index = [](const Operator& op) { return op.index1; };

                    // calculate 8"""), (R + "site_occupation.hpp", "const bool kronecker1 = (a[1].index1 == a[2].index1);", "const bool kronecker1 = op_index(a[1]) == op_index(a[2]);"))
ref("fermi-jump", (R + "fermi_jump/1d.hpp", """                    const auto& basis = _basis_ref.get();
                    Vector h_NO(basis.N);

#pragma omp parallel for
                    for(Index i = 0; i < basis.N; ++i) {
                        // initialize h_i^NO(t) = h_i(t)
                        h_NO[i] = h[i];
                        for(Index j = 0; j < basis.N; ++j) {
                            for(Index k = 0; k < basis.N; ++k) {
                                // calculate 2*<c_{j,↓}^† c_{k,↓}>
                                auto prefactor =
                                    2 * _expectation_value(basis[j].front(), basis[k].front());

                                // subtract δ_{j,k}
                                if(j == k) {
                                    prefactor -= 1.;
                                }

                                // add (2*<c_{j,↓}^† c_{k,↓}> - δ_{j,k}) * h_{i,j,k}(t) to h_i^NO(t)
                                h_NO[i] += prefactor * h[basis.get_3op_index(i, j, k)];
                            }
                        }
                    }

                    std::vector<Complex> results(omp_get_max_threads(), 0.);
#pragma omp parallel for
                    for(Index i = 0; i < basis.N; ++i) {
                        results[omp_get_thread_num()] += _fourier_coefficients[i] * h_NO[i];
                    }

                    return std::norm(std::accumulate(results.begin(), results.end(), Complex(0.)));
""", """                    const auto& basis = _basis_ref.get();
                    const Index N     = basis.N;
                    std::vector<Complex> normal_ordered(N);

#pragma omp parallel for
                    for(Index i = 0; i < N; ++i) {
                        Complex sum = h[i];
                        for(Index j = 0; j < N; ++j) {
                            for(Index k = 0; k < N; ++k) {
                                const Float delta  = (j == k) ? 1. : 0.;
                                const Float factor = 2 * _expectation_value(basis[j].front(),
                                                                            basis[k].front())
                                                     - delta;
                                sum += factor * h[basis.get_3op_index(i, j, k)];
                            }
                        }
                        normal_ordered[i] = sum * _fourier_coefficients[i];
                    }

                    return std::norm(std::accumulate(normal_ordered.begin(), normal_ordered.end(),
                                                     Complex(0.)));
"""))
ref("rk4-locals", (I + "ode/rk4.hpp", """                static Vector k_1, k_2, k_3, k_4;

                k_1 = m * u;
                k_2 = m * (u + (_step_size / 2) * k_1);
                k_3 = m * (u + (_step_size / 2) * k_2);
                k_4 = m * (u + _step_size * k_3);
                u += (_step_size / 6) * (k_1 + 2. * k_2 + 2. * k_3 + k_4);
""", """                const auto half = _step_size / 2;
                const Vector k_1 = m * u;
                const Vector k_2 = m * (u + half * k_1);
                const Vector k_3 = m * (u + half * k_2);
                const Vector k_4 = m * (u + _step_size * k_3);
                u += (_step_size / 6) * k_1;
                u += (_step_size / 3) * (k_2 + k_3);
                u += (_step_size / 6) * k_4;
"""))
ref("multiply-assign", (I + "types/blaze/multiply_assign.hpp", """            static blaze::DynamicVector<Scalar, blaze::columnVector> temp;
            temp.resize(rows, false);
            temp.reset();
""", """            blaze::DynamicVector<Scalar, blaze::columnVector> temp(rows);
"""), (I + "types/blaze/multiply_assign.hpp", """                auto& element = temp[row];
                for(Index col = 0; col < rows; ++col) {
                    element += matrix(row, col) * vector[col];
                }
""", """                Scalar element(0);
                for(Index col = 0; col < rows; ++col) {
                    element += matrix(row, col) * vector[col];
                }
                temp[row] = element;
"""))
ref("function-matrix", (I + "types/function_matrix.hpp", """                if((_rows != rhs.rows()) || (_cols != rhs.cols())) {
                    return true;
                }
                for(Index row = 0; row < _rows; ++row) {
                    for(Index col = 0; col < _cols; ++col) {
                        if(!IsEqual(_f(row, col), rhs(row, col))) {
                            return true;
                        }
                    }
                }
                return false;
""", """                return !(*this == rhs);
"""), (I + "types/function_matrix.hpp", """                for(Index col = 0; col < row; ++col) {
                    if(!IsEqual(matrix(row, col), matrix(col, row))) {
""", """                for(Index col = row + 1; col < N; ++col) {
                    if(!IsEqual(matrix(col, row), matrix(row, col))) {
"""), (I + "types/matrix_check.hpp", """                for(Index j = 0; j <= i; ++j) {
                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
""", """                for(Index j = i; j < N; ++j) {
                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
"""))
ref("complex", (I + "types/number/complex.hpp", """            t.imag(-t.imag());
            return t;
""", """            return T(t.real(), -t.imag());
"""), (I + "types/number/complex.hpp", "return 2 * (a.real() * b.real() + a.imag() * b.imag());", "return 2 * a.real() * b.real() + 2 * a.imag() * b.imag();"),
    (I + "types/number/complex.hpp", "                                        -a.real() * b.imag() + b.real() * a.imag());", "                                        a.imag() * b.real() - a.real() * b.imag());"))
ref("expectation-values", (R + "expectation_value.hpp", """                        _values[dist] =
                            std::sin(k_F * dist * lattice.dx()) / (pi * dist * lattice.dx());
""", """                        const Float r = dist * lattice.dx();
                        _values[dist] = std::sin(k_F * r) / (pi * r);
"""), (R + "expectation_value.hpp", """                            if(dist_x == dist_y) {
                                if(dist_x == 0) {
                                    _values[index] = 0.5;
                                    continue;
                                }

                                _values[index] = prefactor2 * std::sin(pi_half * sum) / sum;
                                continue;
                            }

                            _values[index] = prefactor1 * (std::sin(pi_half * sum) / sum)
                                             * (std::sin(pi_half * diff) / diff);
""", """                            auto& value = _values[index];
                            if(sum == 0) {
                                value = 0.5;
                            } else if(diff == 0) {
                                value = prefactor2 * std::sin(pi_half * sum) / sum;
                            } else {
                                value = prefactor1 * std::sin(pi_half * sum)
                                        * std::sin(pi_half * diff) / (sum * diff);
                            }
"""))
ref("line", (I + "io/line.hpp", """            const auto pos = str.find_first_not_of(" \\t\\n\\v\\f\\r");
            return (pos == std::string::npos) || (str[pos] == '#');
""", """            for(const char c : str) {
                const bool blank = c == ' ' || (c >= '\\t' && c <= '\\r');
                if(!blank) {
                    return c == '#';
                }
            }
            return true;
"""), (I + "io/line.hpp", """            std::string buf;
            while(std::getline(strm, buf)) {
                if(!is_skippable_line(buf)) {
                    return buf;
                }
            }
            return "";
""", """            std::string line;
            bool found = false;
            while(!found && std::getline(strm, line)) {
                found = !is_skippable_line(line);
            }
            return found ? line : std::string();
"""))
ref("printing", (I + "tuple.hpp", """                (void)delimiter;
                strm << std::get<N>(t);
""", """                static_cast<void>(delimiter);
                const auto& last = std::get<N>(t);
                strm << last;
"""), (I + "algebra/monomial/io.hpp", """            std::copy(monomial.begin(), --monomial.end(),
                      std::ostream_iterator<Operator>(strm, " "));
            strm << monomial.back();
            return strm;
""", """            strm << monomial.front();
            for(std::size_t i = 1; i < monomial.size(); ++i) {
                strm << ' ' << monomial[i];
            }
            return strm;
"""), (I + "algebra/term/io.hpp", """            std::copy(t.operators.begin(), --t.operators.end(),
                      std::ostream_iterator<Operator>(strm, " "));
            strm << t.operators.back();
            return strm;
""", """            const char* separator = "";
            for(const auto& op : t.operators) {
                strm << separator << op;
                separator = " ";
            }
            return strm;
"""))
ref("cli", (S + "include/cli.hpp", """        const auto given = options.options;
        for(const auto& option : response.options) {
            const bool skip = option.string_key.empty()
                              || std::any_of(given.begin(), given.end(), [&option](const auto& opt) {
                                     return (opt.string_key == option.string_key);
                                 });
            if(!skip) {
                options.options.push_back(option);
            }
        }
""", """        std::set<std::string> given;
        for(const auto& option : options.options) {
            given.insert(option.string_key);
        }
        for(const auto& option : response.options) {
            if(!option.string_key.empty() && given.count(option.string_key) == 0) {
                options.options.push_back(option);
            }
        }
"""), (S + "include/cli.hpp", "#include <regex>\n", "#include <regex>\n#include <set>\n"))
ref("application", (S + "include/application.hpp", """            std::ofstream file(response_path.c_str());
            for(const auto& opt : all_options) {
                file << "--" << opt.first << '=' << opt.second << '\\n';
            }
            file.close();
""", """            write_response_file(all_options);
"""), (S + "include/application.hpp", """    Application(const Application&) = delete;
""", """    Application(const Application&) = delete;

    template <typename Options>
    void write_response_file(const Options& options) const
    {
        std::ofstream file(response_path.c_str());
        for(const auto& option : options) {
            const std::string line = "--" + option.first + "=" + option.second;
            file << line << std::endl;
        }
    }
"""))
ref("checkpoint", (S + "include/checkpoint.hpp", """    uint64_t counter = 0;
    std::string buffer;
    while((counter < entries) && std::getline(in_file, buffer)) {
        if(!ieompp::io::is_skippable_line(buffer)) {
            ++counter;
        }
        out_file << buffer << '\\n';
    }
""", """    std::string buffer;
    for(uint64_t remaining = entries; remaining != 0 && std::getline(in_file, buffer);) {
        out_file << buffer << std::endl;
        remaining -= ieompp::io::is_skippable_line(buffer) ? 0 : 1;
    }
"""))
ref("interval", (S + "include/common.hpp", """    if(last >= t) return false;
    return static_cast<uint64_t>(std::round((t - last) / dt)) >= interval;
""", """    const Float passed = t - last;
    return (passed > 0) && (static_cast<uint64_t>(std::llround(passed / dt)) >= interval);
"""))
ref("simulation-loop", (S + "hubbard_real_1d_rk4.cpp", """    get_loggers().main->info("Measuring at t=0");
    obs = site_occupation(h);
    get_loggers().main->info(u8"  <n_{{0,↑}}>(0) = {}", obs);
    app.output_file << 0 << '\\t' << obs << '\\n';
    app.output_file.flush();
    get_loggers().main->info("Finish measurement at t=0");
    last_measurement = 0;
""", """    const auto measure = [&](const double time) {
        get_loggers().main->info("Measuring at t={}", time);
        obs = site_occupation(h);
        get_loggers().main->info(u8"  <n_{{0,↑}}>({}) = {}", time, obs);
        app.output_file << time << '\\t' << obs << std::endl;
        get_loggers().main->info("Finish measurement at t={}", time);
        last_measurement = time;
    };
    measure(0.);
"""), (S + "hubbard_real_1d_rk4.cpp", """    for(t = 0.; t < t_end;) {
        if(has_time_interval_passed(t, last_measurement, dt, measurement_interval)) {
            get_loggers().main->info("Measuring at t={}", t);
            obs = site_occupation(h);
            get_loggers().main->info(u8"  <n_{{0,↑}}>({}) = {}", t, obs);
            app.output_file << t << '\\t' << obs << '\\n';
            app.output_file.flush();
            get_loggers().main->info("Finish measurement at t={}", t);
            last_measurement = t;
        }
""", """    t = 0.;
    while(t < t_end) {
        if(has_time_interval_passed(t, last_measurement, dt, measurement_interval)) {
            measure(t);
        }
"""))
ref("theory", (S + "hubbard_real_1d_kinetic_theory.cpp", """    vector<vector<complex<double>>> results;
#pragma omp parallel
    {
#pragma omp critical
        {
            results.emplace_back(steps, complex<double>(0.));
        }
    }
""", """    vector<vector<complex<double>>> results(omp_get_max_threads(),
                                            vector<complex<double>>(steps, 0.));
"""), (S + "hubbard_real_1d_kinetic_theory.cpp", """    switch(power % 4) {
        case 0:
            return 1.;
        case 1:
            return -1.i;
        case 2:
            return -1.;
        default:
            return 1.i;
    }
""", """    static const complex<double> powers[] = {1., -1.i, -1., 1.i};
    return powers[power & 3u];
"""))
ref("dispersion-program", (S + "hubbard_dispersion_1d.cpp", """    for(const auto& site : brillouin_zone) {
        file << brillouin_zone[site] << '\\t' << dispersion(site) << '\\n';
    }
    file.close();
""", """    for(uint64_t site = 0; site < brillouin_zone.size(); ++site) {
        const double k = brillouin_zone[site], energy = dispersion(site);
        file << k << "\\t" << energy << std::endl;
    }
"""))
ref("commutator-program", (S + "hubbard_commutators_momentum_space.cpp", """    cout << "One operator:\\n";
""", """    cout << "One" << " operator:\\n";
"""))
ref("application-names", (S + "include/application.hpp", """        matrix_path =
            boost::filesystem::change_extension(output_path, "").string() + "_matrix.blaze";
        checkpoint_prefix =
            boost::filesystem::change_extension(output_path, "").string() + "_checkpoint_";
""", """        const auto stem   = boost::filesystem::change_extension(output_path, "").string();
        matrix_path       = stem + "_matrix.blaze";
        checkpoint_prefix = stem;
        checkpoint_prefix += "_checkpoint_";
"""), (S + "include/application.hpp", """        output_file << "# program     \\t" << name << '\\n';
        output_file << "# ieompp:     \\t" << ieompp::version << '\\n';
""", """        const auto header = [this](const char* key) -> std::ostream& {
            return output_file << "# " << key << '\\t';
        };
        header("program     ") << name << '\\n';
        header("ieompp:     ") << ieompp::version << std::endl;
"""), (S + "include/application.hpp", """        std::cout << "boost:      \\t" << ieompp::Platform::boost() << '\\n';
        std::cout << "blaze:      \\t" << ieompp::blaze_version() << '\\n';
""", """        std::cout << "boost:      \\t" << ieompp::Platform::boost() << "\\nblaze:      \\t"
                  << ieompp::blaze_version() << std::endl;
"""), (S + "include/application.hpp", """        output_file << "#\\n# CLI options:\\n";
        for(const auto& option : all_options) {
            output_file << "#\\t" << option.first << " = " << option.second << '\\n';
        }
""", """        output_file << "#\\n# CLI options:\\n";
        for(auto it = all_options.begin(); it != all_options.end(); ++it) {
            std::string line = "#\\t";
            line += it->first + " = " + it->second;
            output_file << line << '\\n';
        }
"""), batch=2)
ref("checkpoint-writer", (S + "include/checkpoint.hpp", """    std::ofstream strm(path.c_str(), std::ofstream::binary);
    blaze::Archive<std::ofstream> archive(strm);
    archive << vector;
    strm.close();
    get_loggers().io->info("Finished writing checkpoint file \\"{}\\"", path);

    path = prefix + std::to_string(check_point_number) + ".info";
    get_loggers().io->info("Create checkpoint info file \\"{}\\" for t={}", path, t);
    strm.open(path.c_str());
    strm << t << '\\n';
    strm.close();
""", """    {
        std::ofstream strm(path, std::ios::binary | std::ios::trunc);
        blaze::Archive<std::ofstream> archive(strm);
        archive << vector;
    }
    get_loggers().io->info("Finished writing checkpoint file \\"{}\\"", path);

    path.replace(path.size() - 6, 6, ".info");
    get_loggers().io->info("Create checkpoint info file \\"{}\\" for t={}", path, t);
    {
        std::ofstream info(path);
        info << t << std::endl;
    }
"""), (S + "include/checkpoint.hpp", """    boost::filesystem::rename(path, path + ".bak");
""", """    const auto backup = path + ".bak";
    if(boost::filesystem::exists(backup)) {
        boost::filesystem::remove(backup);
    }
    boost::filesystem::rename(path, backup);
"""), batch=2)
ref("logging", (S + "include/logging.hpp", """        sinks.push_back(std::make_shared<spdlog::sinks::stderr_sink_mt>());
        sinks.push_back(std::make_shared<spdlog::sinks::simple_file_sink_mt>(log_path, true));
        main = std::make_shared<spdlog::logger>("main", sinks.begin(), sinks.end());
        io   = std::make_shared<spdlog::logger>("io", sinks.begin(), sinks.end());
        ode  = std::make_shared<spdlog::logger>("ode", sinks.begin(), sinks.end());
""", """        sinks = {std::make_shared<spdlog::sinks::stderr_sink_mt>(),
                 std::make_shared<spdlog::sinks::simple_file_sink_mt>(log_path, true)};
        const auto make = [this](const std::string& name) {
            return std::make_shared<spdlog::logger>(name, sinks.begin(), sinks.end());
        };
        main = make("main");
        io   = make("io");
        ode  = make("ode");
"""), batch=2)
ref("platform", (I + "platform.hpp", """            static char buffer[128];
            gethostname((char*)buffer, 128);
            return std::string((char*)buffer);
""", """            std::string buffer(256, '\\0');
            gethostname(&buffer[0], buffer.size() - 1);
            return std::string(buffer.c_str());
"""), (I + "platform.hpp", """            const auto name = std::getenv("LOGNAME");
            return std::string((name != nullptr) ? name : "unknown");
""", """            if(const char* name = std::getenv("LOGNAME")) {
                return std::string(name);
            }
            return std::string("unknown");
"""), (I + "platform.hpp", """            static const auto str =
                compose("gcc ", __GNUC__, '.', __GNUC_MINOR__, '.', __GNUC_PATCHLEVEL__);
""", """            static const std::string str = "gcc " + std::to_string(__GNUC__) + "."
                                           + std::to_string(__GNUC_MINOR__) + "."
                                           + std::to_string(__GNUC_PATCHLEVEL__);
"""), batch=2)
ref("exception", (I + "exception.hpp", """        std::ostringstream strm;
        strm << file << ':' << line << ": " << msg;
        return T(strm.str());
""", """        return T(file + ":" + std::to_string(line) + ": " + msg);
"""), (I + "exception.hpp", """        Exception(const char* msg) : _msg(msg) {}
""", """        Exception(const char* msg) : Exception(std::string(msg)) {}
"""), (I + "string.hpp", """        int _[] = {0, (strm << ts, 0)...};
        (void)_;
""", """        using expand = int[];
        (void)expand{0, ((void)(strm << ts), 0)...};
"""), batch=2)
ref("traits", (I + "types/blaze/traits.hpp", """        template <typename T>
        struct IsBlazeDenseMatrix {
            static constexpr bool value = false;
        };
""", """        template <typename T>
        struct IsBlazeDenseMatrix : std::false_type {
        };
"""), (I + "types/blaze/traits.hpp", """                return (TransposeFlag == blaze::rowVector) ? 1 : v.size();
            }

            static blaze::size_t columns(const blaze::DynamicVector<Scalar, TransposeFlag>& v)
            {
                return (TransposeFlag == blaze::rowVector) ? v.size() : 1;
            }
""", """                return IsRowVector<blaze::DynamicVector<Scalar, TransposeFlag>>::value ? 1 : v.size();
            }

            static blaze::size_t columns(const blaze::DynamicVector<Scalar, TransposeFlag>& v)
            {
                if(TransposeFlag == blaze::rowVector) {
                    return v.size();
                }
                return 1;
            }
"""), (I + "types/blaze/traits.hpp", "#include <blaze/util/Types.h>\n", "#include <blaze/util/Types.h>\n\n#include <type_traits>\n"), batch=2)

# ---------------------------------------------------------------- batch 3
RS = I + "models/hubbard_real_space/"
S = "src/hubbard/"
ref("jump-2d-helper", (RS + "fermi_jump/2d.hpp", """                                // calculate 2*<c_{j,↓}^† c_{k,↓}>
                                auto prefactor =
                                    2 * _expectation_value(basis[j].front(), basis[k].front());

                                // subtract δ_{j,k}
                                if(j == k) {
                                    prefactor -= 1.;
                                }

                                // add (2*<c_{j,↓}^† c_{k,↓}> - δ_{j,k}) * h_{i,j,k}(t) to h_i^NO(t)
                                h_NO[i] += prefactor * h[basis.get_3op_index(i, j, k)];
""", """                                h_NO[i] += occupation_factor(basis, j, k)
                                           * h[basis.get_3op_index(i, j, k)];
"""), (RS + "fermi_jump/2d.hpp", """                auto& fourier_coefficients() const""", """                // 2*<c_{j,↓}^† c_{k,↓}> - δ_{j,k}
                Float occupation_factor(const Basis& basis, Index j, Index k) const
                {
                    const auto ev = _expectation_value(basis[j].front(), basis[k].front());
                    return 2 * ev - (j == k ? Float(1) : Float(0));
                }

                auto& fourier_coefficients() const"""), (RS + "fermi_jump/2d.hpp", """                    std::vector<Complex> results(omp_get_max_threads(), 0.);
#pragma omp parallel for
                    for(Index i = 0; i < basis.N; ++i) {
                        results[omp_get_thread_num()] += _fourier_coefficients[i] * h_NO[i];
                    }

                    return std::norm(std::accumulate(results.begin(), results.end(), Complex(0.)));
""", """                    Complex result(0.);
                    for(Index i = 0; i < basis.N; ++i) {
                        result += _fourier_coefficients[i] * h_NO[i];
                    }
                    return std::norm(result);
"""), batch=3)
ref("momentum-steps", (S + "hubbard_momentum_1d_rk4.cpp", "    integrator.step(M, h);\n" * 8, """    for(int step = 0; step < 8; ++step) {
        integrator.step(M, h);
    }
"""), (S + "hubbard_momentum_1d_rk4.cpp", "    double obs, t, last_measurement = 0.;\n\n", ""), batch=3)
ref("real-2d-measure", (S + "hubbard_real_2d_rk4_jump.cpp", """    double obs, t, last_measurement = 0.;

    get_loggers().main->info("Measuring at t=0");
    obs = jump(h);
    get_loggers().main->info(u8"  Δn_{{k_F,↑}}(0) = {}", obs);
    app.output_file << 0 << '\\t' << obs << '\\n';
    app.output_file.flush();
    get_loggers().main->info("Finish measurement at t=0");
    last_measurement = 0;

""", """    double t = 0., last_measurement = 0.;

    const auto measure = [&]() {
        get_loggers().main->info("Measuring at t={}", t);
        const auto obs = jump(h);
        get_loggers().main->info(u8"  Δn_{{k_F,↑}}({}) = {}", t, obs);
        app.output_file << t << '\\t' << obs << '\\n';
        app.output_file.flush();
        get_loggers().main->info("Finish measurement at t={}", t);
        last_measurement = t;
    };
    measure();

"""), (S + "hubbard_real_2d_rk4_jump.cpp", """    for(t = 0.; t < t_end;) {
        if(has_time_interval_passed(t, last_measurement, dt, measurement_interval)) {
            get_loggers().main->info("Measuring at t={}", t);
            obs = jump(h);
            get_loggers().main->info(u8"  Δn_{{k_F,↑}}({}) = {}", t, obs);
            app.output_file << t << '\\t' << obs << '\\n';
            app.output_file.flush();
            get_loggers().main->info("Finish measurement at t={}", t);
            last_measurement = t;
        }
""", """    while(t < t_end) {
        if(has_time_interval_passed(t, last_measurement, dt, measurement_interval)) {
            measure();
        }
"""), (S + "hubbard_real_2d_rk4_jump.cpp", """    if(has_time_interval_passed(t, last_measurement, dt, measurement_interval)) {
        get_loggers().main->info("Measuring at t={}", t);
        obs = jump(h);
        get_loggers().main->info(u8"  Δn_{{k_F,↑}}({}) = {}", t, obs);
        app.output_file << t << '\\t' << obs << '\\n';
        app.output_file.flush();
        get_loggers().main->info("Finish measurement at t={}", t);
        last_measurement = t;
    }

    return 0;
""", """    if(has_time_interval_passed(t, last_measurement, dt, measurement_interval)) {
        measure();
    }

    return 0;
"""), batch=3)
ref("is-zero", (I + "types/number/is_zero.hpp", """            static constexpr auto epsilon = std::numeric_limits<T>::epsilon();
            return std::abs(t) < epsilon;
""", """            const auto magnitude = std::abs(t);
            return magnitude < std::numeric_limits<T>::epsilon();
"""), (I + "types/number/is_zero.hpp", """            return IsZero<Float>(t.real()) && IsZero<Float>(t.imag());
""", """            if(!IsZero<Float>(t.imag())) {
                return false;
            }
            return IsZero<Float>(t.real());
"""), (I + "types/number/is_equal.hpp", """            return std::abs(t1 - t2) < epsilon;
""", """            const T difference = t1 - t2;
            return difference < epsilon && -difference < epsilon;
"""), batch=3)
ref("anticommute", (I + "algebra/anticommutator.hpp", """                    if(IsSymbolicIndex<I, Operator>::value) {
                        return AnticommutatesHelper<Operator, I + 1, N>::call(a, b);
                    }
                    if(get_index<I>(a) != get_index<I>(b)) {
                        return true;
                    }
                    return AnticommutatesHelper<Operator, I + 1, N>::call(a, b);
""", """                    const bool differs = !IsSymbolicIndex<I, Operator>::value
                                         && get_index<I>(a) != get_index<I>(b);
                    return differs || AnticommutatesHelper<Operator, I + 1, N>::call(a, b);
"""), (I + "algebra/anticommutator.hpp", """            return (op1.creator == op2.creator) || !op1.same_indices(op2);
""", """            if(op1.creator != op2.creator) {
                return !op2.same_indices(op1);
            }
            return true;
"""), batch=3)
ref("operator-io", (I + "algebra/operator/io.hpp", """        template <typename Index>
        std::ostream& operator<<(std::ostream& strm, const Operator<Index>& op)
        {
            strm << 'c';
            if(op.creator) {
                strm << "^†";
            }
            strm << "_{";
            GetPrinterType<Index, DefaultPrinters>::Type::print(strm, op.index);
            strm << '}';
            return strm;
        }
""", """        namespace detail
        {
            inline void print_operator_head(std::ostream& strm, bool creator)
            {
                strm << (creator ? "c^†_{" : "c_{");
            }
        } // namespace detail

        template <typename Index>
        std::ostream& operator<<(std::ostream& strm, const Operator<Index>& op)
        {
            detail::print_operator_head(strm, op.creator);
            GetPrinterType<Index, DefaultPrinters>::Type::print(strm, op.index);
            return strm << '}';
        }
"""), batch=3)
ref("get-index", (I + "algebra/operator/get_index.hpp", """            return typename Operator<Index1, Index2>::Indices{op.index1, op.index2};
""", """            using Indices = typename Operator<Index1, Index2>::Indices;
            return Indices(op.index1, op.index2);
"""), (I + "algebra/kronecker.hpp", "namespace ieompp\n{", "// equality of two indices\nnamespace ieompp\n{"), batch=3)
ref("program-helpers", (S + "include/vector.hpp", """    blaze::DynamicVector<std::complex<double>> vec(basis.size());
    vec.reset();
    vec[0] = 1.;
""", """    blaze::DynamicVector<std::complex<double>> vec(basis.size(), 0.);
    vec[0] = std::complex<double>(1., 0.);
"""), (S + "real_space/matrix.hpp", """    ieompp::models::hubbard_real_space::init_matrix(L, M, basis, lattice);
    get_loggers().main->info("  {} out of {} matrix elements are non-zero ({}% filling)",
                             M.nonZeros(), M.rows() * M.columns(),
                             100. * M.nonZeros() / (M.rows() * M.columns()));
    get_loggers().main->info("Multiply matrix with prefactor 1i");
    M *= std::complex<double>(0, 1);
""", """    ieompp::models::hubbard_real_space::init_matrix(L, M, basis, lattice);
    const auto total    = M.rows() * M.columns();
    const auto non_zero = M.nonZeros();
    get_loggers().main->info("  {} out of {} matrix elements are non-zero ({}% filling)", non_zero,
                             total, 100. * non_zero / total);
    get_loggers().main->info("Multiply matrix with prefactor 1i");
    constexpr std::complex<double> imaginary_unit(0, 1);
    M *= imaginary_unit;
"""), (S + "include/application_timer.hpp", """    const auto now = std::chrono::steady_clock::now();
    strm << std::chrono::duration<double>(now - timer._created).count() << "s";
    return strm;
""", """    const std::chrono::duration<double> elapsed = std::chrono::steady_clock::now() - timer._created;
    return strm << elapsed.count() << "s";
"""), (S + "real_space/basis3.hpp", """    auto basis = Basis(lattice);
""", """    Basis basis(lattice);
"""), batch=3)
ref("commutator-programs", (S + "hubbard_commutators_real_space.cpp", """int main()
{
""", """template <typename Hamiltonian, typename Term>
static void print_commutator(const Hamiltonian& hamiltonian, const Term& t)
{
    vector<Term> comm;
    for(auto& part : hamiltonian) {
        commutate(part, t, comm);
    }
    for(auto& result : comm) {
        result.prefactor.order_kroneckers();
        cout << "\\t\\t" << result << '\\n';
    }
}

int main()
{
"""), (S + "hubbard_commutators_real_space.cpp", """    {
        vector<Term> comm;
        commutate(hopping1, t1, comm);
        commutate(hopping2, t1, comm);
        commutate(hopping3, t1, comm);
        commutate(hopping4, t1, comm);
        for(auto& t : comm) {
            t.prefactor.order_kroneckers();
            cout << "\\t\\t" << t << '\\n';
        }
    }
""", """    print_commutator(vector<Term>{hopping1, hopping2, hopping3, hopping4}, t1);
"""), batch=3)
ref("jump-no-polar", (RS + "fermi_jump_no.hpp", """            template <typename FloatT, typename MonomialT>
            class FermiJump1D_NO<FloatT, Basis1Operator<MonomialT>>
            {
""", """            // e^{i k_F r} on every site
            template <typename Complex, typename Index, typename Lattice>
            void init_fourier_coefficients(std::vector<Complex>& coefficients, const Index N,
                                           const Lattice& lattice)
            {
                coefficients.assign(N, Complex(0));
                for(Index i = 0; i < N; ++i) {
                    const auto prod = HalfPi<double>::value * lattice[i];
                    coefficients[i] = Complex(std::cos(prod), std::sin(prod));
                }
            }

            template <typename FloatT, typename MonomialT>
            class FermiJump1D_NO<FloatT, Basis1Operator<MonomialT>>
            {
"""), batch=3)
