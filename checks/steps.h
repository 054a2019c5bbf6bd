#pragma once
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
// the three ways of taking a step: 0 free flight, 1 with an impact operator, 2 with an impact-friction map and friction solver
struct IdleOperator final : public ImpactOperator { virtual void flow( const std::vector<std::unique_ptr<Constraint>>&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, VectorXs& ) override {} virtual std::string name() const override { return "idle"; } virtual std::unique_ptr<ImpactOperator> clone() const override { return nullptr; } virtual void serialize( std::ostream& ) const override {} };
struct IdleSolver final : public FrictionSolver { virtual void solve( const unsigned, const scalar&, const FlowableSystem&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs&, std::vector<std::unique_ptr<Constraint>>&, const MatrixXXsc&, const VectorXs&, const VectorXs&, const unsigned, const scalar&, VectorXs&, VectorXs&, VectorXs&, VectorXs&, bool&, scalar& ) override {} virtual unsigned numFrictionImpulsesPerNormal( const unsigned ) const override { return 1; } virtual void serialize( std::ostream& ) const override {} virtual std::string name() const override { return "idle"; } };
struct PassOn final : public ImpactFrictionMap { double CoR = 0, mu = 0; const FrictionSolver* fs = nullptr; int calls = 0; virtual void flow( ScriptingCallback&, FlowableSystem& f, ConstrainedSystem&, UnconstrainedMap& um, FrictionSolver& solver, const unsigned it, const scalar& h, const scalar& e, const scalar& m, const VectorXs& q0, const VectorXs& v0, VectorXs& q1, VectorXs& v1 ) override { ++calls; CoR = e; mu = m; fs = &solver; um.flow( q0, v0, f, it, h, q1, v1 ); } virtual void resetCachedData() override {} virtual void serialize( std::ostream& ) const override {} virtual std::string name() const override { return "pass"; } };
template<class SIM> static auto impactStep( SIM& sim, PythonScripting& ps, unsigned it, const Rational<std::intmax_t>& dt, UnconstrainedMap& m, int ) -> decltype( sim.flow( ps, it, dt, m, std::declval<ImpactOperator&>(), 0.5, std::declval<ImpactMap&>() ) ) { IdleOperator op; ImpactMap im( false ); sim.flow( ps, it, dt, m, op, 0.5, im ); }
template<class SIM> static auto impactStep( SIM& sim, PythonScripting& ps, unsigned it, const Rational<std::intmax_t>& dt, UnconstrainedMap& m, long ) -> decltype( sim.flow( ps, it, dt, m, std::declval<ImpactOperator&>(), 0.5 ) ) { IdleOperator op; sim.flow( ps, it, dt, m, op, 0.5 ); }
template<class SIM> static void takeStep( SIM& sim, int kind, unsigned it, const Rational<std::intmax_t>& dt, UnconstrainedMap& m )
{
  PythonScripting ps; if( kind == 0 ) { sim.flow( ps, it, dt, m ); return; }
  if( kind == 1 ) { impactStep( sim, ps, it, dt, m, 0 ); return; }
  PassOn im; IdleSolver so; const double e = vp_real( "cor", 0, 0, 1 ), mu = vp_real( "mu", 0, 0, 2 ); sim.flow( ps, it, dt, m, e, mu, so, im ); vp_check( im.calls == 1 && im.fs == &so, "the contact map runs once, with the given solver" ); vp_check_same( im.CoR, e, "restitution handed on" ); vp_check_same( im.mu, mu, "friction handed on" );
}
