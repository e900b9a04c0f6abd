// Generic collective rendezvous: the k-th collective of every member of a communicator must agree in `sig`.
struct CollOp { string sig; string name; int arrived=0; vector<char> here; vector<string> contrib; vector<int> extra; bool done=false; int result=0; int left=0; };
// complete: 0 = wait for everybody, 1 = wait only for member `root`, 2 = do not wait, 3 = wait for members <= my index
std::shared_ptr<CollOp> coll_enter(int comm,const string&name,const string&sig,const string&contrib,int complete,int root,std::function<void(CollOp&)> when_all=nullptr);
int comm_size_of(int comm); int comm_index(int comm);
