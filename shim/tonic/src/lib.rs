//! Stand-in for the `tonic` crate and for the code tonic-build generates from services.proto.
//! The message types are those the Reveaal sources use.
pub use tonic_macros::async_trait;

#[derive(Debug, Clone)]
pub struct Request<T>(T);
impl<T> Request<T> {
    pub fn new(t: T) -> Self {
        Request(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
}
#[derive(Debug, Clone)]
pub struct Response<T>(T);
impl<T> Response<T> {
    pub fn new(t: T) -> Self {
        Response(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code {
    Ok = 0,
    Cancelled = 1,
    Unknown = 2,
    InvalidArgument = 3,
    DeadlineExceeded = 4,
    NotFound = 5,
    AlreadyExists = 6,
    PermissionDenied = 7,
    ResourceExhausted = 8,
    FailedPrecondition = 9,
    Aborted = 10,
    OutOfRange = 11,
    Unimplemented = 12,
    Internal = 13,
    Unavailable = 14,
    DataLoss = 15,
    Unauthenticated = 16,
}
#[derive(Debug, Clone)]
pub struct Status {
    code: Code,
    message: String,
}
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self {
        Status { code, message: message.into() }
    }
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
    pub fn invalid_argument(m: impl Into<String>) -> Self {
        Self::new(Code::InvalidArgument, m)
    }
    pub fn internal(m: impl Into<String>) -> Self {
        Self::new(Code::Internal, m)
    }
    pub fn unimplemented(m: impl Into<String>) -> Self {
        Self::new(Code::Unimplemented, m)
    }
    pub fn unknown(m: impl Into<String>) -> Self {
        Self::new(Code::Unknown, m)
    }
    pub fn not_found(m: impl Into<String>) -> Self {
        Self::new(Code::NotFound, m)
    }
    pub fn aborted(m: impl Into<String>) -> Self {
        Self::new(Code::Aborted, m)
    }
    pub fn unavailable(m: impl Into<String>) -> Self {
        Self::new(Code::Unavailable, m)
    }
    pub fn failed_precondition(m: impl Into<String>) -> Self {
        Self::new(Code::FailedPrecondition, m)
    }
    pub fn out_of_range(m: impl Into<String>) -> Self {
        Self::new(Code::OutOfRange, m)
    }
}
impl std::fmt::Display for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}: {}", self.code, self.message)
    }
}
impl std::error::Error for Status {}

pub mod transport {
    use std::net::SocketAddr;
    use std::time::Duration;
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("transport error")
        }
    }
    impl std::error::Error for Error {}
    #[derive(Default)]
    pub struct Server;
    pub struct Router;
    impl Server {
        pub fn builder() -> Self {
            Server
        }
        pub fn http2_keepalive_interval(self, _d: Option<Duration>) -> Self {
            self
        }
        pub fn add_service<S>(&mut self, _s: S) -> Router {
            Router
        }
    }
    impl Router {
        pub async fn serve(self, _addr: SocketAddr) -> Result<(), Error> {
            Ok(())
        }
    }
}

#[macro_export]
macro_rules! include_proto {
    ($pkg:tt) => {
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct ComponentInstance {
            pub component_name: String,
            pub component_index: u32,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct LeafLocation {
            pub id: String,
            pub component_instance: Option<ComponentInstance>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct BinaryLocationOperator {
            pub left: Option<Box<LocationTree>>,
            pub right: Option<Box<LocationTree>>,
            pub operator: i32,
        }
        impl BinaryLocationOperator {
            pub fn operator(&self) -> binary_location_operator::Operator {
                use binary_location_operator::Operator;
                match self.operator {
                    1 => Operator::Composition,
                    2 => Operator::Quotient,
                    3 => Operator::Refinement,
                    _ => Operator::Conjunction,
                }
            }
        }
        pub mod binary_location_operator {
            #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
            #[repr(i32)]
            pub enum Operator {
                Conjunction = 0,
                Composition = 1,
                Quotient = 2,
                Refinement = 3,
            }
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct LocationTree {
            pub node_type: Option<location_tree::NodeType>,
        }
        pub mod location_tree {
            #[derive(Clone, PartialEq, Debug)]
            pub enum NodeType {
                LeafLocation(super::LeafLocation),
                SpecialLocation(i32),
                BinaryLocationOp(Box<super::BinaryLocationOperator>),
            }
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Clock {
            pub clock: Option<clock::Clock>,
        }
        pub mod clock {
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct ComponentClock {
                pub component_instance: Option<super::ComponentInstance>,
                pub clock_name: String,
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct SystemClock {
                pub clock_index: u32,
            }
            #[derive(Clone, PartialEq, Debug)]
            pub enum Clock {
                ComponentClock(ComponentClock),
                SystemClock(SystemClock),
                ZeroClock(i32),
            }
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Constraint {
            pub x: Option<Clock>,
            pub y: Option<Clock>,
            pub strict: bool,
            pub c: i32,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Conjunction {
            pub constraints: Vec<Constraint>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Disjunction {
            pub conjunctions: Vec<Conjunction>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct State {
            pub location_tree: Option<LocationTree>,
            pub zone: Option<Disjunction>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Edge {
            pub id: String,
            pub component_instance: Option<ComponentInstance>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Decision {
            pub source: Option<State>,
            pub action: String,
            pub edges: Vec<Edge>,
            pub destination: Option<State>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Path {
            pub decisions: Vec<Decision>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct StateAction {
            pub state: Option<State>,
            pub action: String,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct ActionFailure {
            pub failure: i32,
            pub action_sets: Vec<action_failure::ActionSet>,
        }
        pub mod action_failure {
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct ActionSet {
                pub actions: Vec<String>,
                pub system: String,
                pub is_input: bool,
            }
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct Component {
            pub rep: Option<component::Rep>,
        }
        pub mod component {
            #[derive(Clone, PartialEq, Debug)]
            pub enum Rep {
                Json(String),
                Xml(String),
            }
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct ComponentsInfo {
            pub components: Vec<Component>,
            pub components_hash: u32,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct QueryRequest {
            pub user_id: i32,
            pub query_id: i32,
            pub query: String,
            pub components_info: Option<ComponentsInfo>,
            pub settings: Option<query_request::Settings>,
        }
        pub mod query_request {
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct Settings {
                pub disable_clock_reduction: bool,
            }
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct QueryResponse {
            pub query_id: i32,
            pub info: Vec<query_response::Information>,
            pub result: Option<query_response::Result>,
        }
        pub mod query_response {
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct Information {
                pub severity: i32,
                pub subject: String,
                pub message: String,
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct Success {}
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct Error {
                pub error: String,
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct DeterminismFailure {
                pub system: String,
                pub failure_state: Option<super::StateAction>,
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct ConsistencyFailure {
                pub system: String,
                pub failure: Option<consistency_failure::Failure>,
            }
            pub mod consistency_failure {
                #[derive(Clone, PartialEq, Debug)]
                pub enum Failure {
                    NoInitialState(i32),
                    Determinism(super::DeterminismFailure),
                    FailureState(super::super::State),
                }
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct RefinementFailure {
                pub system: String,
                pub failure: Option<refinement_failure::Failure>,
            }
            pub mod refinement_failure {
                #[derive(Clone, PartialEq, Debug, Default)]
                pub struct RefinementStateFailure {
                    pub unmatched: i32,
                    pub state: Option<super::super::StateAction>,
                }
                #[derive(Clone, PartialEq, Debug)]
                pub enum Failure {
                    RefinementState(RefinementStateFailure),
                    EmptySystem(String),
                    NoInitialState(i32),
                    InconsistentChild(super::ConsistencyFailure),
                    ActionMismatch(super::super::ActionFailure),
                }
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct ModelFailure {
                pub system: String,
                pub failure: Option<model_failure::Failure>,
            }
            pub mod model_failure {
                #[derive(Clone, PartialEq, Debug)]
                pub enum Failure {
                    ActionMismatch(super::super::ActionFailure),
                    InconsistentConjunction(super::ConsistencyFailure),
                }
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct ReachabilityFailure {
                pub failure: i32,
            }
            #[derive(Clone, PartialEq, Debug, Default)]
            pub struct ReachabilityPath {
                pub path: Option<super::Path>,
            }
            #[derive(Clone, PartialEq, Debug)]
            pub enum Result {
                Success(Success),
                Refinement(RefinementFailure),
                Consistency(ConsistencyFailure),
                Determinism(DeterminismFailure),
                Model(ModelFailure),
                Reachability(ReachabilityFailure),
                ReachabilityPath(ReachabilityPath),
                Component(super::Component),
                Error(Error),
            }
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct SimulationInfo {
            pub user_id: i32,
            pub component_composition: String,
            pub components_info: Option<ComponentsInfo>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct SimulationStartRequest {
            pub simulation_info: Option<SimulationInfo>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct SimulationStepRequest {
            pub simulation_info: Option<SimulationInfo>,
            pub chosen_decision: Option<Decision>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct SimulationStepResponse {
            pub full_state: Option<State>,
            pub new_decision_points: Vec<Decision>,
        }
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct UserTokenResponse {
            pub user_id: i32,
        }
        pub mod ecdar_backend_server {
            #[allow(async_fn_in_trait)]
            pub trait EcdarBackend: Send + Sync + 'static {
                async fn get_user_token(
                    &self,
                    request: ::tonic::Request<()>,
                ) -> Result<::tonic::Response<super::UserTokenResponse>, ::tonic::Status>;
                async fn send_query(
                    &self,
                    request: ::tonic::Request<super::QueryRequest>,
                ) -> Result<::tonic::Response<super::QueryResponse>, ::tonic::Status>;
                async fn start_simulation(
                    &self,
                    request: ::tonic::Request<super::SimulationStartRequest>,
                ) -> Result<::tonic::Response<super::SimulationStepResponse>, ::tonic::Status>;
                async fn take_simulation_step(
                    &self,
                    request: ::tonic::Request<super::SimulationStepRequest>,
                ) -> Result<::tonic::Response<super::SimulationStepResponse>, ::tonic::Status>;
            }
            #[derive(Debug)]
            pub struct EcdarBackendServer<T: EcdarBackend>(std::sync::Arc<T>);
            impl<T: EcdarBackend> EcdarBackendServer<T> {
                pub fn new(inner: T) -> Self {
                    EcdarBackendServer(std::sync::Arc::new(inner))
                }
            }
        }
    };
}
