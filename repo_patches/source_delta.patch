From dafde2afcdf820a4120b43e58d2c9aaccebcbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:11 +0000
Subject: [PATCH 01/38] fix: integrate_const with dense output never queries a
 state outside the last step or beyond the end time

---
 .../integrate/detail/integrate_const.hpp      | 43 +++++++------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..9419183 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -120,44 +120,31 @@ size_t integrate_const(
     int obs_step( 1 );
     int real_step( 0 );
     
-    while( less_eq_with_sign( static_cast<Time>(time+dt) , end_time , dt ) )
+    while( less_eq_with_sign( time , end_time , dt ) )
     {
-        while( less_eq_with_sign( time , st.current_time() , dt ) )
-        {
-            st.calc_state( time , start_state );
-            obs( start_state , time );
-            ++obs_step;
-            // direct computation of the time avoids error propagation happening when using time += dt
-            // we need clumsy type analysis to get boost units working here
-            time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
-        }
-        // we have not reached the end, do another real step
-        if( less_with_sign( static_cast<Time>(st.current_time()+st.current_time_step()) ,
-                            end_time ,
-                            st.current_time_step() ) )
+        // do real steps until the observation time is reached
+        while( less_with_sign( st.current_time() , time , dt ) )
         {
-            while( less_eq_with_sign( st.current_time() , time , dt ) )
+            // never step beyond the end, do the last step ending exactly on the end point
+            if( less_with_sign( end_time ,
+                                static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                st.current_time_step() ) )
             {
-                st.do_step( system );
-                ++real_step;
+                st.initialize( st.current_state() , st.current_time() ,
+                               static_cast<Time>(end_time - st.current_time()) );
             }
-        }
-        else if( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
-        { // do the last step ending exactly on the end point
-            st.initialize( st.current_state() , st.current_time() , end_time - st.current_time() );
             st.do_step( system );
             ++real_step;
         }
-        
-    }
-    // last observation, if we are still in observation interval
-    // might happen due to finite precision problems when computing the the time
-    if( less_eq_with_sign( time , end_time , dt ) )
-    {
+
         st.calc_state( time , start_state );
         obs( start_state , time );
+        ++obs_step;
+        // direct computation of the time avoids error propagation happening when using time += dt
+        // we need clumsy type analysis to get boost units working here
+        time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
     }
-    
+
     return real_step;
 }
 
-- 
2.43.0


From bb9ff52d7ce847e3f721263d0d67c94c964aec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:11 +0000
Subject: [PATCH 02/38] fix: integrate_n_steps with dense output honours
 backward integration and hands back the final state

---
 .../numeric/odeint/integrate/detail/integrate_n_steps.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..6d1b3ed 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp>
 #include <boost/numeric/odeint/util/unit_helper.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
 
@@ -137,7 +138,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
@@ -146,8 +147,9 @@ Time integrate_n_steps(
         st.do_step( system );
     }
 
-    // observation at final point
-    obs( st.current_state() , end_time );
+    // observation at final point, the final state is handed back to the caller
+    boost::numeric::odeint::copy( st.current_state() , start_state );
+    obs( start_state , end_time );
 
     return time;
 }
-- 
2.43.0


From 7dc8e5c13018fb4b1dc76f0011d107eccd372fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:11 +0000
Subject: [PATCH 03/38] fix: integrate_const with a checker and no observer
 keeps to the time grid and calls the checker

---
 .../odeint/integrate/integrate_const.hpp      | 58 ++++++-------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/integrate_const.hpp b/include/boost/numeric/odeint/integrate/integrate_const.hpp
index fae683f..9a31955 100644
--- a/include/boost/numeric/odeint/integrate/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/integrate_const.hpp
@@ -42,26 +42,16 @@ size_t integrate_const(
         Observer observer, StepOverflowChecker checker
 ) {
     typedef typename odeint::unwrap_reference<Stepper>::type::stepper_category stepper_category;
-    // we want to get as fast as possible to the end
-    // no overflow checks needed
-    if (boost::is_same<null_observer, Observer>::value) {
-        return detail::integrate_adaptive(
-                stepper, system, start_state,
-                start_time, end_time, dt,
-                observer, stepper_category());
-    }
-    else {
-        // unwrap references
-        typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
-        typedef typename odeint::unwrap_reference< Observer >::type observer_type;
-        typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
-
-        return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
-                                       system, start_state,
-                                       start_time, end_time, dt,
-                                       checked_observer<observer_type, checker_type>(observer, checker),
-                                       stepper_category());
-    }
+    // unwrap references
+    typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
+    typedef typename odeint::unwrap_reference< Observer >::type observer_type;
+    typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
+
+    return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
+                                   system, start_state,
+                                   start_time, end_time, dt,
+                                   checked_observer<observer_type, checker_type>(observer, checker),
+                                   stepper_category());
 }
 
 /**
@@ -75,25 +65,15 @@ size_t integrate_const(
         Observer observer, StepOverflowChecker checker
 ) {
     typedef typename odeint::unwrap_reference<Stepper>::type::stepper_category stepper_category;
-    // we want to get as fast as possible to the end
-
-    if (boost::is_same<null_observer, Observer>::value) {
-        return detail::integrate_adaptive(
-                stepper, system, start_state,
-                start_time, end_time, dt,
-                observer, stepper_category());
-    }
-    else {
-        typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
-        typedef typename odeint::unwrap_reference< Observer >::type observer_type;
-        typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
-
-        return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
-                                       system, start_state,
-                                       start_time, end_time, dt,
-                                       checked_observer<observer_type, checker_type>(observer, checker),
-                                       stepper_category());
-    }
+    typedef typename odeint::unwrap_reference< Stepper >::type stepper_type;
+    typedef typename odeint::unwrap_reference< Observer >::type observer_type;
+    typedef typename odeint::unwrap_reference< StepOverflowChecker >::type checker_type;
+
+    return detail::integrate_const(checked_stepper<stepper_type, checker_type>(stepper, checker),
+                                   system, start_state,
+                                   start_time, end_time, dt,
+                                   checked_observer<observer_type, checker_type>(observer, checker),
+                                   stepper_category());
 }
 
 
-- 
2.43.0


From b17c438ca234a34317f28b357d2ad115ff566ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:03 +0000
Subject: [PATCH 04/38] fix: controlled FSAL steppers: out-of-place try_step
 compiles, and no stale derivative after a call that was given one

---
 .../odeint/stepper/controlled_runge_kutta.hpp    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..f01bbef 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -682,7 +682,14 @@ public:
         {
             initialize( system , in , t );
         }
-        return try_step( system , in , m_dxdt.m_v , t , out , dt );
+        m_dxdt_new_resizer.adjust_size( in , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_new_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        controlled_step_result res = try_step( system , in , m_dxdt.m_v , t , out , m_dxdtnew.m_v , dt );
+        if( res == success )
+        {
+            boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
+        }
+        m_first_call = false;   // m_dxdt holds the derivative of the current state
+        return res;
     }
 
 
@@ -753,6 +760,9 @@ public:
     controlled_step_result try_step( System system , const StateIn &in , const DerivIn &dxdt_in , time_type &t ,
             StateOut &out , DerivOut &dxdt_out , time_type &dt )
     {
+        // the derivative is supplied from outside, hence m_dxdt can not be trusted in later calls
+        m_first_call = true;
+
         unwrapped_step_adjuster &step_adjuster = m_step_adjuster;
         if( !step_adjuster.check_step_size_limit(dt) )
         {
@@ -899,7 +909,9 @@ private:
         {
             initialize( system , x , t );
         }
-        return try_step( system , x , m_dxdt.m_v , t , dt );
+        controlled_step_result res = try_step( system , x , m_dxdt.m_v , t , dt );
+        m_first_call = false;   // m_dxdt holds the derivative of the current state
+        return res;
     }
 
 
-- 
2.43.0


From d2b43f96fb78d9a79cb2ef70e44e53c0febd09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:03 +0000
Subject: [PATCH 05/38] fix: adaptive Adams-Bashforth-Moulton steppers accept
 systems by reference wrapper

---
 .../stepper/adaptive_adams_bashforth_moulton.hpp    | 13 ++++++++-----
 .../stepper/controlled_adams_bashforth_moulton.hpp  |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..b2366fc 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -110,9 +110,10 @@ public:
     template< class System >
     void do_step(System system, const state_type &in, time_type t, state_type &out, time_type dt , state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         do_step_impl(system, in, t, out, dt, xerr);
         
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
         m_coeff.confirm();
 
@@ -125,17 +126,18 @@ public:
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         dt = dt/static_cast< time_type >(order_value);
 
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
-        system( inOut , m_dxdt.m_v , t );
+        sys( inOut , m_dxdt.m_v , t );
         for( size_t i=0 ; i<order_value; ++i )
         {
             stepper.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
             
-            system( inOut , m_dxdt.m_v , t + dt);
+            sys( inOut , m_dxdt.m_v , t + dt);
             
             m_coeff.predict(t, dt);
             m_coeff.do_step(m_dxdt.m_v);
@@ -166,6 +168,7 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
@@ -174,7 +177,7 @@ public:
         m_coeff.predict(t, dt);
         if (m_coeff.m_steps_init == 1)
         {
-            system(in, m_dxdt.m_v, t);
+            sys(in, m_dxdt.m_v, t);
             m_coeff.do_step(m_dxdt.m_v, 1);
         }
 
@@ -185,7 +188,7 @@ public:
                 typename Operations::template scale_sum2<double, double>(1.0, dt*m_coeff.g[i]*m_coeff.beta[0][i]));
         }
 
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
 
         this->m_algebra.for_each3(out, out, m_coeff.phi[0][eO].m_v,
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..e8944e1 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -175,6 +175,7 @@ public:
     template< class ExplicitStepper, class System >
     void initialize_controlled(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         coeff_type &coeff = m_stepper.coeff();
 
@@ -190,7 +191,7 @@ public:
             }
             while(res != success);
 
-            system( inOut , m_dxdt.m_v , t );
+            sys( inOut , m_dxdt.m_v , t );
             
             coeff.predict(t-dt, dt);
             coeff.do_step(m_dxdt.m_v);
@@ -221,6 +222,7 @@ public:
     template< class System >
     controlled_step_result try_step(System system, const state_type & in, time_type &t, state_type & out, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         m_xerr_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
         m_dxdt_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
@@ -233,7 +235,7 @@ public:
 
         if(dt / dtPrev >= step_adjuster_type::threshold())
         {
-            system(out, m_dxdt.m_v, t+dtPrev);
+            sys(out, m_dxdt.m_v, t+dtPrev);
 
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
-- 
2.43.0


From b041c8b6d7ff21de7aae471b9b93f86d8e7f8a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:03 +0000
Subject: [PATCH 06/38] fix: extrapolation_stepper works in place without
 overwriting its input

---
 .../odeint/stepper/extrapolation_stepper.hpp   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..82aa07f 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -175,28 +175,28 @@ class extrapolation_stepper : public explicit_error_stepper_base
         m_resizer.adjust_size(
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
+        m_xout_resizer.adjust_size(
+            in, detail::bind( &stepper_type::template resize_m_xout< StateIn >,
+                              detail::ref( *this ), detail::_1 ) );
+        // in and out can be the same object, hence out must not be written
+        // before the last midpoint step
         size_t k = 0;
         m_midpoint.set_steps( m_interval_sequence[k] );
-        m_midpoint.do_step( system, in, dxdt, t, out, dt );
+        m_midpoint.do_step( system, in, dxdt, t, m_xout.m_v, dt );
         for ( k = 1; k <= m_k_max; ++k )
         {
             m_midpoint.set_steps( m_interval_sequence[k] );
             m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
-            extrapolate( k, m_table, m_coeff, out );
+            extrapolate( k, m_table, m_coeff, m_xout.m_v );
         }
+        boost::numeric::odeint::copy( m_xout.m_v, out );
     }
 
     template < class System, class StateInOut, class DerivIn >
     void do_step_impl_io( System system, StateInOut &inout, const DerivIn &dxdt,
                           time_type t, time_type dt )
     {
-        // special care for inout
-        m_xout_resizer.adjust_size(
-            inout,
-            detail::bind( &stepper_type::template resize_m_xout< StateInOut >,
-                          detail::ref( *this ), detail::_1 ) );
-        do_step_impl( system, inout, dxdt, t, m_xout.m_v, dt );
-        boost::numeric::odeint::copy( m_xout.m_v, inout );
+        do_step_impl( system, inout, dxdt, t, inout, dt );
     }
 
     template < class System, class StateInOut, class DerivIn >
-- 
2.43.0


From 7dee7a76acc09eb9de8cfd0d67f7398930830bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 07/38] fix: controlled_adams_bashforth_moulton::reset forgets
 the step size history

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 6 +++++-
 .../numeric/odeint/stepper/detail/pid_step_adjuster.hpp     | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index e8944e1..1aa1bed 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -278,7 +278,11 @@ public:
         }
     };
 
-    void reset() { m_stepper.reset(); };
+    void reset()
+    {
+        m_stepper.reset();
+        m_step_adjuster.reset();
+    };
 
 private:
     template< class StateType >
diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 7c0f258..612c9fb 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -177,6 +177,12 @@ public:
         return dt * static_cast<time_type>(ratio);
     };
 
+    // forget the errors and step sizes of the previous steps
+    void reset()
+    {
+        m_init = 0;
+    };
+
 private:
     algebra_type m_algebra;
 
-- 
2.43.0


From fcf0908254fa5dcff5d2d5f7404baffa6409273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 08/38] fix: implicit_euler does not factorize the Jacobian
 again in further Newton steps

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..ee791be 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -112,7 +112,8 @@ public:
             //            m_jacobi *= dt;
             //            m_jacobi -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
-            solve( m_b.m_v , m_jacobi.m_v );
+            // m_jacobi has already been factorized in the first Newton step
+            boost::numeric::ublas::lu_substitute( m_jacobi.m_v , m_pm.m_v , m_b.m_v );
 
             m_x.m_v -= m_b.m_v;
         }
-- 
2.43.0


From ce796d8de598ac0d34cc8cd47d431cbf80069886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 09/38] fix: bulirsch_stoer_dense_out::reset restores the
 initial order

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..5f6bfae 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -381,6 +381,7 @@ public:
     {
         m_first = true;
         m_last_step_rejected = false;
+        m_current_k_opt = 4;
     }
 
     template< class StateIn >
-- 
2.43.0


From 85f3e7fce7b8897f7e8a973b64fd79534c4745ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 10/38] fix: bulirsch_stoer_dense_out shrinks rejected steps in
 backward integration

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 5f6bfae..8f625be 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -291,7 +291,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || detail::less_with_sign(new_h, dt, dt) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From 24959468be09c103594796cd257aa3e176919479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 11/38] fix: Bulirsch-Stoer order selection does not depend on
 the direction of the integration

---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp        | 3 ++-
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index 02c3749..d84f6d3 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -234,7 +234,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit step, independent of the direction of the integration
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( h_opt[k] < static_cast<time_type>(0) ? -h_opt[k] : h_opt[k] );
 
                 if( (k == m_current_k_opt-1) || m_first )
                 { // convergence before k_opt ?
diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 8f625be..bc332f9 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -198,7 +198,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit step, independent of the direction of the integration
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( h_opt[k] < static_cast<time_type>(0) ? -h_opt[k] : h_opt[k] );
 
                 m_k_final = k;
 
-- 
2.43.0


From d81f27ce09312bab3ea22c36bfe530e4dc492afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:14 +0000
Subject: [PATCH 12/38] fix: pid_step_adjuster limits the step size by its
 magnitude

---
 .../boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 612c9fb..09653e7 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -157,9 +157,9 @@ public:
         value_type kappa = 1.0;
         ratio = 1.0 + kappa*atan((ratio - 1) / kappa);
 
-        if(ratio*dt >= m_dtmax)
+        if(abs(ratio*dt) >= abs(m_dtmax))
         {
-            ratio = m_dtmax / dt;
+            ratio = abs(m_dtmax / dt);
         }
 
         if(ratio >= threshold())
-- 
2.43.0


From a68f1e5805bb5bbe78a65651bdd301615482bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:14 +0000
Subject: [PATCH 13/38] fix: rosenbrock4_dense_output::initialize forgets the
 step size history; rosenbrock4_controller::adjust_size reaches the stepper

---
 .../numeric/odeint/stepper/rosenbrock4_controller.hpp  | 10 ++++++++++
 .../odeint/stepper/rosenbrock4_dense_output.hpp        |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..7332baf 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -183,6 +183,16 @@ public:
     {
         resize_m_xerr( x );
         resize_m_xnew( x );
+        m_stepper.adjust_size( x );
+    }
+
+    // forget everything learned from the previous steps
+    void reset( void )
+    {
+        m_first_step = true;
+        m_err_old = 0.0;
+        m_dt_old = 0.0;
+        m_last_rejected = false;
     }
 
 
diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp
index d296246..797587e 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp
@@ -71,6 +71,8 @@ public:
         get_current_state() = x0;
         m_t = t0;
         m_dt = dt0;
+        unwrapped_controlled_stepper_type &stepper = m_stepper;
+        stepper.reset();  // a new trajectory knows nothing about the steps of the previous one
     }
 
     template< class System >
-- 
2.43.0


From 813f7802538cc6ebebaca8d2b68683dc9eeffe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:14 +0000
Subject: [PATCH 14/38] fix: adjust_size reaches all temporaries of composed
 steppers

---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp      | 1 +
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp   | 1 +
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 .../boost/numeric/odeint/stepper/extrapolation_stepper.hpp    | 2 ++
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..ba60657 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -177,6 +177,7 @@ public :
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index f01bbef..9aa1f42 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -851,6 +851,7 @@ public:
         resize_m_dxdt_impl( x );
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..9254fd4 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -169,7 +169,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -379,7 +379,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 82aa07f..57c20f6 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -218,7 +218,9 @@ class extrapolation_stepper : public explicit_error_stepper_base
     template < class StateIn > void adjust_size( const StateIn &x )
     {
         resize_impl( x );
+        resize_m_xout( x );
         m_midpoint.adjust_size( x );
+        stepper_base_type::adjust_size( x );
     }
 
   private:
-- 
2.43.0


From 79e493ba286b5fc485d82c8c4e9269bc4ea9a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 15/38] fix: initialize of a fresh FSAL stepper adjusts the
 size of the derivative it writes

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp    | 2 ++
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..7ceb5d4 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -286,6 +286,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -294,6 +295,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 9aa1f42..62e70ad 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -809,6 +809,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -825,6 +826,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From 3a21c1ede2e7122e9efde88bc330eca9a5c7d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 16/38] fix: copies of adams_bashforth_moulton do not refer to
 the algebra of the original

---
 .../odeint/stepper/adams_bashforth_moulton.hpp  | 17 +++++++++++++++++
 .../numeric/odeint/stepper/adams_moulton.hpp    |  7 +++++++
 2 files changed, 24 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f3edce1..f79fef3 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -94,6 +94,23 @@ public :
     , m_x() , m_resizer()    
     { }
 
+    adams_bashforth_moulton( const adams_bashforth_moulton &stepper )
+    : m_adams_bashforth( stepper.m_adams_bashforth ) ,
+      m_adams_moulton( m_adams_bashforth.algebra() ) // refers to the own algebra, not to the one of stepper
+    , m_x( stepper.m_x ) , m_resizer( stepper.m_resizer )
+    {
+        m_adams_moulton = stepper.m_adams_moulton;
+    }
+
+    adams_bashforth_moulton& operator=( const adams_bashforth_moulton &stepper )
+    {
+        m_adams_bashforth = stepper.m_adams_bashforth;
+        m_adams_moulton = stepper.m_adams_moulton;
+        m_x = stepper.m_x;
+        m_resizer = stepper.m_resizer;
+        return *this;
+    }
+
     order_type order( void ) const { return order_value; }
 
     template< class System , class StateInOut >
diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..e3c86fe 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -97,6 +97,13 @@ public :
       m_algebra_instance() , m_algebra( algebra )
     { }
 
+    adams_moulton( const adams_moulton &stepper )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance( stepper.m_algebra_instance ) ,
+      // refer to the own algebra if the original refers to its own algebra
+      m_algebra( &stepper.m_algebra == &stepper.m_algebra_instance ? m_algebra_instance : stepper.m_algebra )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From 43f4467ae3454b8fabf7199ca2928ad35745de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 17/38] fix: adams_bashforth_moulton restarts when the state is
 resized

---
 .../odeint/stepper/adams_bashforth_moulton.hpp     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f79fef3..4865dfb 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -156,6 +156,7 @@ public :
     template< class ExplicitStepper , class System , class StateIn >
     void initialize( ExplicitStepper explicit_stepper , System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( explicit_stepper , system , x , t , dt );
     }
 
@@ -163,6 +164,7 @@ public :
     template< class System , class StateIn >
     void initialize( System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( system , x , t , dt );
     }
 
@@ -179,9 +181,13 @@ private:
     template< typename System , typename StateInOut >
     void do_step_impl1( System system , StateInOut &x , time_type t , time_type dt )
     {
+        if( m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+        {
+            m_adams_bashforth.reset(); // the stored steps belong to a state of different size
+        }
+
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
             m_adams_bashforth.do_step( system , x , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
         }
@@ -194,9 +200,13 @@ private:
     template< typename System , typename StateIn , typename StateInOut >
     void do_step_impl2( System system , StateIn const &in , time_type t , StateInOut & out , time_type dt )
     {
+        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) ) )
+        {
+            m_adams_bashforth.reset(); // the stored steps belong to a state of different size
+        }
+
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );        
             m_adams_bashforth.do_step( system , in , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
         }
-- 
2.43.0


From 99e39c1eba3c0cb9254c0933ccdf00bf6372ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 18/38] fix: times iterators do not dereference an empty range
 and accept bidirectional time iterators with dense output

---
 .../iterator/impl/times_iterator_impl.hpp     | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..7fdb9f1 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -33,6 +33,23 @@ namespace numeric {
 namespace odeint {
 
 
+    namespace detail {
+
+        // the end of an empty range must not be dereferenced
+        template< class Time , class TimeIterator >
+        Time first_time_point( TimeIterator begin , TimeIterator end )
+        {
+            return ( begin == end ) ? Time() : static_cast< Time >( *begin );
+        }
+
+        template< class Time , class TimeIterator >
+        Time last_time_point( TimeIterator begin , TimeIterator end )
+        {
+            return ( begin == end ) ? Time() : static_cast< Time >( *( --end ) );
+        }
+
+    }
+
     template< class Iterator , class Stepper , class System , class State , class TimeIterator ,
               typename Tag , typename StepperTag >
     class times_iterator_impl;
@@ -83,7 +100,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , detail::first_time_point< time_type >( t_start , t_end ) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +198,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , detail::first_time_point< time_type >( t_start , t_end ) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +318,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , detail::first_time_point< time_type >( t_start , t_end ) , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( detail::last_time_point< time_type >( t_start , t_end ) ) ,
               m_state( &s )
         {
             if( t_start != t_end )
-- 
2.43.0


From d1b623f33d46285c1bb10aadaa748f8ca5ae7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 19/38] fix: rosenbrock4 uses the right sign for the
 time-derivative coefficient d4

---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From 803749cfab07545f2635c4246212cd76f90c7d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 20/38] fix: adams_moulton advertises the order it has

---
 include/boost/numeric/odeint/stepper/adams_moulton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index e3c86fe..101b0ab 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -83,7 +83,7 @@ public :
     static const size_t steps = Steps;
 
     typedef unsigned short order_type;
-    static const order_type order_value = steps + 1;
+    static const order_type order_value = steps;
 
     typedef detail::rotating_buffer< wrapped_deriv_type , steps > step_storage_type;
 
-- 
2.43.0


From fbe22937f8ac424f28caea35edf867c912746998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 21/38] fix: initialize_controlled of the controlled
 Adams-Bashforth-Moulton stepper records the steps actually made

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 1aa1bed..3fe0ea7 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -185,15 +185,19 @@ public:
 
         for( size_t i=0 ; i<order_value; ++i )
         {
+            // try_step advances t and proposes a new dt, the history needs the step actually made
+            time_type tPrev = t;
+            time_type dtPrev = dt;
             do
             {
+                dtPrev = dt;
                 res = stepper.try_step( system, inOut, t, dt );
             }
             while(res != success);
 
             sys( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            coeff.predict(tPrev, dtPrev);
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From bcad373dd3d635f2d3ad68a701275d324dd5e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 22/38] fix: order selection of the controlled
 Adams-Bashforth-Moulton stepper ignores error estimates of an earlier run

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 3fe0ea7..571d6b9 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -270,6 +270,12 @@ public:
                 m_algebra.for_each2(m_xerr[3].m_v, coeff.phi[1][eo+1].m_v, 
                     typename operations_type::template scale_sum1<double>(factor*dt*(coeff.gs[eo+1])));
             }
+            else if(eo < order_value)
+            {
+                // not known yet while the stepper starts, do not use what a previous run has left here
+                m_algebra.for_each2(m_xerr[3].m_v, coeff.phi[1][eo].m_v, 
+                    typename operations_type::template scale_sum1<double>(0*factor*dt));
+            }
 
             // adjust order
             coeff.m_eo = m_order_adjuster.adjust_order(coeff.m_eo, coeff.m_steps_init-1, m_xerr);
-- 
2.43.0


From 257f39798d7880a2505bb2af478265f823fc9087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 23/38] fix: integrate_adaptive with a dense-output stepper no
 longer hangs when the last step rounds past the end time

current_time + (end_time - current_time) can round to more than an epsilon beyond end_time, in which case the
last step was re-initialised for ever and never made.
---
 .../integrate/detail/integrate_adaptive.hpp   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 7516d44..0372ec8 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -132,16 +132,17 @@ size_t integrate_adaptive(
 
     while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
     {
-        while( less_eq_with_sign( static_cast<Time>(st.current_time() + st.current_time_step()) ,
-               end_time ,
-               st.current_time_step() ) )
-        {   //make sure we don't go beyond the end_time
-            obs( st.current_state() , st.current_time() );
-            st.do_step( system );
-            ++count;
+        // make sure we don't go beyond the end_time
+        if( less_with_sign( end_time ,
+                            static_cast<Time>(st.current_time() + st.current_time_step()) ,
+                            st.current_time_step() ) )
+        {
+            // calculate time step to arrive exactly at end time
+            st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
         }
-        // calculate time step to arrive exactly at end time
-        st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+        obs( st.current_state() , st.current_time() );
+        st.do_step( system );
+        ++count;
     }
     obs( st.current_state() , st.current_time() );
     // overwrite start_state with the final point
-- 
2.43.0


From 8660d0f497491c56e4fcc5a988e0a4907a1301ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 24/38] fix: copying between openmp_states copies part by part

---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..b8d697e 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -93,7 +93,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From 0b3821241f94ac8748a499c99bdb556897e1bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 25/38] fix: temporary mpi_states use the communicator of the
 state they are sized after

---
 include/boost/numeric/odeint/external/mpi/mpi_state.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
index aba179c..fdd0e68 100644
--- a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
+++ b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
@@ -65,6 +65,8 @@ struct same_size_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static bool same_size( const mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
+        // states on different communicators can not be used interchangeably
+        if( x.world != y.world ) return false;
         const bool local = boost::numeric::odeint::same_size(x(), y());
         return boost::mpi::all_reduce(x.world, local, mpi::bitwise_and<bool>());
     }
@@ -76,7 +78,8 @@ struct resize_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static void resize( mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
-        // resize local parts on each node.
+        // use the same communicator, and resize local parts on each node.
+        x.world = y.world;
         boost::numeric::odeint::resize(x(), y());
     }
 };
-- 
2.43.0


From 6f6a64053a7fcb383cc3c50c072c4c51560fee35 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:30:36 +0000
Subject: [PATCH 26/38] fix: the controller factory for Runge-Kutta steppers
 takes max_dt in the stepper's time type

---
 .../stepper/generation/generation_controlled_runge_kutta.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
index bad2bed..6c2c65c 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
@@ -36,7 +36,7 @@ struct controller_factory< Stepper , controlled_runge_kutta< Stepper > >
     typedef typename controller_type::error_checker_type error_checker_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-- 
2.43.0


From 3c17efd49d5486262e92c3690865d9f2aeb7a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:36 +0000
Subject: [PATCH 27/38] fix: make_controlled for
 adaptive_adams_bashforth_moulton uses the stepper it is given

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 5 +++--
 .../generation_controlled_adams_bashforth_moulton.hpp       | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 571d6b9..436c243 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -154,8 +154,9 @@ public:
     typedef typename stepper_type::coeff_type coeff_type;
     typedef controlled_adams_bashforth_moulton< ErrorStepper , StepAdjuster , OrderAdjuster , Resizer > controlled_stepper_type;
 
-    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
-    :m_stepper(),
+    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type(),
+        const stepper_type &stepper = stepper_type())
+    :m_stepper( stepper ),
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
     m_step_adjuster( step_adjuster ), m_order_adjuster()
     {};
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index ca95a1f..735428b 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -38,17 +38,17 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
     typedef controlled_adams_bashforth_moulton< stepper_type > controller_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-        return controller_type(step_adjuster_type(abs_error, rel_error));
+        return controller_type(step_adjuster_type(abs_error, rel_error), stepper);
     }
 
     controller_type operator()( value_type abs_error , value_type rel_error ,
                                 time_type max_dt, const stepper_type &stepper )
     {
-        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt));
+        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt), stepper);
     }
 };
 
-- 
2.43.0


From a2ceee72730fc8cebfb5d0d33faae7bef043f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:36 +0000
Subject: [PATCH 28/38] fix: initialize of the adaptive Adams-Bashforth-Moulton
 steppers accepts a reference to the initializing stepper

---
 .../odeint/stepper/adaptive_adams_bashforth_moulton.hpp        | 3 ++-
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index b2366fc..cf0faf6 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -124,8 +124,9 @@ public:
     };
 
     template< class ExplicitStepper, class System >
-    void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
+    void initialize(ExplicitStepper explicit_stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        typename odeint::unwrap_reference< ExplicitStepper >::type &stepper = explicit_stepper;
         typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         dt = dt/static_cast< time_type >(order_value);
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 436c243..f00c67a 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -174,8 +174,9 @@ public:
     };
 
     template< class ExplicitStepper, class System >
-    void initialize_controlled(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type &dt)
+    void initialize_controlled(ExplicitStepper explicit_stepper, System system, state_type &inOut, time_type &t, time_type &dt)
     {
+        typename odeint::unwrap_reference< ExplicitStepper >::type &stepper = explicit_stepper;
         typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         coeff_type &coeff = m_stepper.coeff();
-- 
2.43.0


From a8626679e53f63694344de13b5c4d5299b33658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:36 +0000
Subject: [PATCH 29/38] fix: repeated start times do not ask a dense-output
 stepper to interpolate before its first step

---
 .../numeric/odeint/integrate/detail/integrate_times.hpp  | 4 ++++
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..8ad17bd 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -141,6 +141,10 @@ size_t integrate_times(
     st.initialize( start_state , *start_time , dt );
     obs( start_state , *start_time++ );
 
+    // further observations at the start time, there is nothing to interpolate before the first step
+    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , st.current_time_step() ) )
+        obs( start_state , *start_time++ );
+
     size_t count = 0;
     while( start_time != end_time )
     {
diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7fdb9f1..25d517c 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -319,8 +319,8 @@ namespace odeint {
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
             : base_type( stepper , sys , detail::first_time_point< time_type >( t_start , t_end ) , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( detail::last_time_point< time_type >( t_start , t_end ) ) ,
-              m_state( &s )
+              m_t_start( t_start ) , m_t_end( t_end ) , m_first_time( detail::first_time_point< time_type >( t_start , t_end ) ) ,
+              m_final_time( detail::last_time_point< time_type >( t_start , t_end ) ) , m_state( &s )
         {
             if( t_start != t_end )
             {
@@ -360,7 +360,9 @@ namespace odeint {
                     }
                     st.do_step( this->m_system );
                 }
-                st.calc_state( this->m_t , *( this->m_state ) );
+                // there is nothing to interpolate before the first step
+                if( detail::less_with_sign( m_first_time , this->m_t , this->m_dt ) )
+                    st.calc_state( this->m_t , *( this->m_state ) );
             } else {
                 this->m_at_end = true;
             }
@@ -376,6 +378,7 @@ namespace odeint {
     private:
         time_iterator_type m_t_start;
         time_iterator_type m_t_end;
+        time_type m_first_time;
         time_type m_final_time;
         state_type* m_state;
     };
-- 
2.43.0


From 4eea10f65becb52fef72453591866c5cc58c9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 30/38] fix: copies of adams_bashforth_moulton are constructed,
 not assigned (multi_array states have no assignable shape)

---
 .../numeric/odeint/stepper/adams_bashforth_moulton.hpp      | 6 ++----
 include/boost/numeric/odeint/stepper/adams_moulton.hpp      | 6 ++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index 4865dfb..fbdcb9d 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -96,11 +96,9 @@ public :
 
     adams_bashforth_moulton( const adams_bashforth_moulton &stepper )
     : m_adams_bashforth( stepper.m_adams_bashforth ) ,
-      m_adams_moulton( m_adams_bashforth.algebra() ) // refers to the own algebra, not to the one of stepper
+      m_adams_moulton( stepper.m_adams_moulton , m_adams_bashforth.algebra() ) // refers to the own algebra, not to the one of stepper
     , m_x( stepper.m_x ) , m_resizer( stepper.m_resizer )
-    {
-        m_adams_moulton = stepper.m_adams_moulton;
-    }
+    { }
 
     adams_bashforth_moulton& operator=( const adams_bashforth_moulton &stepper )
     {
diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 101b0ab..cac912b 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -104,6 +104,12 @@ public :
       m_algebra( &stepper.m_algebra == &stepper.m_algebra_instance ? m_algebra_instance : stepper.m_algebra )
     { }
 
+    // copy which uses another algebra
+    adams_moulton( const adams_moulton &stepper , algebra_type &algebra )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance() , m_algebra( algebra )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From ac8f7cd1fe6b38d86dee90b988119793932b6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 31/38] fix: the maximum norm of a ublas matrix is its largest
 element, not its largest row sum

---
 include/boost/numeric/odeint/util/ublas_wrapper.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/ublas_wrapper.hpp b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
index c8facfc..65aa683 100644
--- a/include/boost/numeric/odeint/util/ublas_wrapper.hpp
+++ b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
@@ -55,9 +55,18 @@ namespace boost { namespace numeric { namespace odeint {
     {
         typedef T result_type;
 
+        // the largest element, boost::numeric::ublas::norm_inf( x ) is the largest row sum
         result_type operator()( const boost::numeric::ublas::matrix<T,L,A> &x ) const
         {
-            return boost::numeric::ublas::norm_inf( x );
+            using std::abs;
+            result_type norm = result_type( 0 );
+            for( size_t i=0 ; i<x.size1() ; ++i )
+                for( size_t j=0 ; j<x.size2() ; ++j )
+                {
+                    const result_type a = abs( x( i , j ) );
+                    if( norm < a ) norm = a;
+                }
+            return norm;
         }
     };
 } } }
-- 
2.43.0


From e407847ab3ee99fd71a493603c7fbf1fc2c23075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 32/38] fix: pid_step_adjuster gives its error storage the
 shape of the state

---
 .../odeint/stepper/detail/pid_step_adjuster.hpp      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 09653e7..72f692e 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -17,6 +17,9 @@
 
 #include <boost/numeric/odeint/stepper/detail/rotating_buffer.hpp>
 #include <boost/numeric/odeint/stepper/detail/pid_step_adjuster_coefficients.hpp>
+#include <boost/numeric/odeint/util/state_wrapper.hpp>
+#include <boost/numeric/odeint/util/is_resizeable.hpp>
+#include <boost/numeric/odeint/util/resizer.hpp>
 
 #include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
 #include <boost/numeric/odeint/algebra/operations_dispatcher.hpp>
@@ -122,7 +125,7 @@ public:
     typedef Algebra algebra_type;
     typedef Operations operations_type;
 
-    typedef rotating_buffer<state_type, 3> error_storage_type;
+    typedef rotating_buffer< state_wrapper< state_type > , 3> error_storage_type;
     typedef rotating_buffer<time_type, 3> time_storage_type;
     typedef pid_step_adjuster_coefficients<Type> coeff_type;
 
@@ -137,18 +140,19 @@ public:
         m_algebra.for_each3( err , x , dxdt ,
                 typename operations_type::template rel_error< value_type >( m_abs_tol , m_rel_tol , 1.0 , 1.0 * abs(get_unit_value( dt )) ) );
 
-        m_error_storage[0] = err;
+        adjust_size_by_resizeability( m_error_storage[0] , err , typename is_resizeable<state_type>::type() );
+        m_error_storage[0].m_v = err;
         m_dt_storage[0] = dt;
 
         if(m_init >= 2)
         {
-            m_algebra.for_each4(err, m_error_storage[0], m_error_storage[1], m_error_storage[2],
+            m_algebra.for_each4(err, m_error_storage[0].m_v, m_error_storage[1].m_v, m_error_storage[2].m_v,
                 pid_op<>(steps, m_dt_storage[0], m_dt_storage[1], m_dt_storage[2],
                     m_coeff[0], m_coeff[1], m_coeff[2], m_coeff[3], m_coeff[4]));
         }
         else
         {
-            m_algebra.for_each2(err, m_error_storage[0],
+            m_algebra.for_each2(err, m_error_storage[0].m_v,
                 pid_op<>(steps, m_dt_storage[0], m_dt_storage[1], m_dt_storage[2], 0.7));
         }
 
-- 
2.43.0


From b10c3d47746b7d996fb7e1ced5f0107fe3165bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 33/38] fix: integrate_adaptive and integrate_times compile
 with times that have units

---
 .../numeric/odeint/integrate/detail/integrate_adaptive.hpp  | 2 +-
 .../numeric/odeint/integrate/detail/integrate_times.hpp     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 0372ec8..5fae517 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -63,7 +63,7 @@ size_t integrate_adaptive(
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
-    Time end = start_time + dt*steps;
+    Time end = start_time + static_cast< typename unit_value_type<Time>::type >(steps) * dt;
     if( less_with_sign( end , end_time , dt ) )
     {   //make a last step to end exactly at end_time
         st.do_step( system , start_state , end , end_time - end );
diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 8ad17bd..c292f61 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -51,7 +51,7 @@ size_t integrate_times(
 
     stepper_type &st = stepper;
     observer_type &obs = observer;
-    typedef typename unit_value_type<Time>::type time_type;
+    typedef Time time_type;
 
     size_t steps = 0;
     Time current_dt = dt;
@@ -84,7 +84,7 @@ size_t integrate_times(
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
-    typedef typename unit_value_type<Time>::type time_type;
+    typedef Time time_type;
 
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
@@ -129,7 +129,7 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
-    typedef typename unit_value_type<Time>::type time_type;
+    typedef Time time_type;
 
     if( start_time == end_time )
         return 0;
-- 
2.43.0


From 077fc75ddef483a051f54b34bebd788101182d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 34/38] fix: time comparisons use the epsilon of the value type
 when the time has units

---
 .../boost/numeric/odeint/util/detail/less_with_sign.hpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/util/detail/less_with_sign.hpp b/include/boost/numeric/odeint/util/detail/less_with_sign.hpp
index 3ffa7ca..fa6064d 100644
--- a/include/boost/numeric/odeint/util/detail/less_with_sign.hpp
+++ b/include/boost/numeric/odeint/util/detail/less_with_sign.hpp
@@ -34,10 +34,10 @@ bool less_with_sign( T t1 , T t2 , T dt )
 {
     if( get_unit_value(dt) > 0 )
         //return t1 < t2;
-        return t2-t1 > std::numeric_limits<T>::epsilon();
+        return get_unit_value( static_cast<T>(t2-t1) ) > std::numeric_limits< typename unit_value_type<T>::type >::epsilon();
     else
         //return t1 > t2;
-        return t1-t2 > std::numeric_limits<T>::epsilon();
+        return get_unit_value( static_cast<T>(t1-t2) ) > std::numeric_limits< typename unit_value_type<T>::type >::epsilon();
 }
 
 /**
@@ -47,9 +47,9 @@ template< typename T >
 bool less_eq_with_sign( T t1 , T t2 , T dt )
 {
     if( get_unit_value(dt) > 0 )
-        return t1-t2 <= std::numeric_limits<T>::epsilon();
+        return get_unit_value( static_cast<T>(t1-t2) ) <= std::numeric_limits< typename unit_value_type<T>::type >::epsilon();
     else
-        return t2-t1 <= std::numeric_limits<T>::epsilon();
+        return get_unit_value( static_cast<T>(t2-t1) ) <= std::numeric_limits< typename unit_value_type<T>::type >::epsilon();
 }
 
 template< typename T >
-- 
2.43.0


From 819a3c4393ab5f194db31df43206f631fc55eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 35/38] fix: vector_space_algebra knows the norm of long double

---
 .../numeric/odeint/algebra/vector_space_algebra.hpp   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/numeric/odeint/algebra/vector_space_algebra.hpp b/include/boost/numeric/odeint/algebra/vector_space_algebra.hpp
index 17ff007..d374aa9 100644
--- a/include/boost/numeric/odeint/algebra/vector_space_algebra.hpp
+++ b/include/boost/numeric/odeint/algebra/vector_space_algebra.hpp
@@ -57,6 +57,17 @@ struct vector_space_norm_inf< float >
     }
 };
 
+template<>
+struct vector_space_norm_inf< long double >
+{
+    typedef long double result_type;
+    result_type operator()( long double x ) const
+    {
+        using std::abs;
+        return abs(x);
+    }
+};
+
 template< typename T >
 struct vector_space_norm_inf< std::complex<T> >
 {
-- 
2.43.0


From 96cb1d36234d0384e9f62dce286d780e8d4d1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 36/38] fix: Eigen matrices can be copied by odeint::copy with
 Eigen 3.4

---
 .../numeric/odeint/external/eigen/eigen_resize.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
index 1989cc3..f8cda8e 100644
--- a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
+++ b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
 #include <boost/numeric/odeint/util/same_size.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/utility/enable_if.hpp>
 #include <boost/type_traits/is_base_of.hpp>
@@ -99,6 +100,19 @@ struct resize_impl_sfinae< Derived , Derived ,
 
 
 
+// matrices and arrays are copied as a whole, newer versions of Eigen offer iterators for one-dimensional objects only
+template< class Derived , class Container2 >
+struct copy_impl_sfinae< Derived , Container2 ,
+                    typename boost::enable_if< typename boost::is_base_of< Eigen::DenseBase< Derived > , Derived >::type >::type >
+{
+    static void copy( const Derived &from , Container2 &to )
+    {
+        to = from;
+    }
+};
+
+
+
 } // namespace odeint
 } // namespace numeric
 } // namespace boost
-- 
2.43.0


From 08467064a495426d6f719fac12e6d98317745bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 37/38] fix: extract_value_type ends at numbers that name
 themselves as value_type

---
 .../odeint/algebra/detail/extract_value_type.hpp      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp b/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp
index c5246bb..eb2e558 100644
--- a/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp
+++ b/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp
@@ -19,6 +19,9 @@
 
 #include <boost/utility.hpp>
 #include <boost/mpl/has_xxx.hpp>
+#include <boost/mpl/eval_if.hpp>
+#include <boost/mpl/identity.hpp>
+#include <boost/type_traits/is_same.hpp>
 
 BOOST_MPL_HAS_XXX_TRAIT_DEF(value_type)
 
@@ -43,8 +46,12 @@ struct extract_value_type<S , typename boost::disable_if< has_value_type<S> >::t
 template< typename S >
 struct extract_value_type< S , typename boost::enable_if< has_value_type<S> >::type >
 {
-    // go down the value_type
-    typedef typename extract_value_type< typename S::value_type >::type type;
+    // go down the value_type, unless the type names itself as its value_type, as multiprecision numbers do
+    typedef typename boost::mpl::eval_if<
+        boost::is_same< S , typename S::value_type > ,
+        boost::mpl::identity< S > ,
+        extract_value_type< typename S::value_type >
+    >::type type;
 };
 
 } } } }
-- 
2.43.0


From db8c3a13103a16e75180aabe9b7866f9225d3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 38/38] fix: gsl state_wrapper copies its elements and owns its
 vector

---
 .../odeint/external/gsl/gsl_wrapper.hpp       | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index a856f6e..7ebb5df 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -191,6 +191,16 @@ struct resize_impl< gsl_vector* , gsl_vector* >
     }
 };
 
+// copy the elements, not the pointer
+template <>
+struct copy_impl< gsl_vector* , gsl_vector* >
+{
+    static void copy( const gsl_vector* from , gsl_vector* &to )
+    {
+        gsl_vector_memcpy( to , from );
+    }
+};
+
 template<>
 struct state_wrapper< gsl_vector* >
 {
@@ -207,10 +217,20 @@ struct state_wrapper< gsl_vector* >
 
     state_wrapper( const state_wrapper_type &x )
     {
-        resize( m_v , x.m_v );
+        m_v = gsl_vector_alloc( x.m_v->size );
         gsl_vector_memcpy( m_v , x.m_v );
     }
 
+    state_wrapper_type& operator=( const state_wrapper_type &x )
+    {
+        if( this != &x )
+        {
+            if( m_v->size != x.m_v->size ) resize( m_v , x.m_v );
+            gsl_vector_memcpy( m_v , x.m_v );
+        }
+        return *this;
+    }
+
 
     ~state_wrapper()
     {
-- 
2.43.0

