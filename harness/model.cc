#include "common.h"
#include <algorithm>
#include <array>
#include <bitset>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <sstream>
#include <iomanip>
#include <iostream>
#include <fstream>
#include <stdexcept>
#include <tuple>
#include <forward_list>
#include <cmath>
#include <cctype>
#include <cstdlib>
#include <cstdio>
#include <random>
extern "C" void t_stable() { std::vector<std::string> v{"c","a","b"}; std::stable_sort(v.begin(), v.end()); CHECK(v[0]=="a", "st"); std::inplace_merge(v.begin(), v.begin()+1, v.end()); std::stable_partition(v.begin(), v.end(), [](const std::string&s){return s=="b";}); CHECK(v[0]=="b","sp"); }
extern "C" void t_list() { std::list<int> l{3,1,2}; l.sort(); l.reverse(); l.splice(l.begin(), std::list<int>{9}); l.remove(1); l.unique(); CHECK(l.front()==9 && l.size()==3, "l"); std::forward_list<int> f{1,2}; f.push_front(0); f.sort(); f.reverse(); CHECK(f.front()==2,"f"); std::list<int> m{1}; m.merge(l); std::list<int> k; k.swap(m); CHECK(k.size()==4,"m"); }
extern "C" void t_func() { std::function<int(int)> f = [](int x){return x+1;}; CHECK(f(2)==3,"f"); auto g = std::bind(std::plus<int>(), std::placeholders::_1, 3); CHECK(g(1)==4,"g"); auto h = std::mem_fn(&std::string::size); CHECK(h(std::string("ab"))==2,"h"); }
extern "C" void t_shared() { std::shared_ptr<std::string> p = std::make_shared<std::string>("x"), q = p; std::weak_ptr<std::string> w = p; CHECK(q.use_count()==2 && w.lock()->size()==1,"sp"); }
extern "C" void t_deque() { std::deque<std::string> d; for (int i=0;i<100;++i) { d.push_back(std::to_string(i)); d.push_front("z"); } std::sort(d.begin(), d.end()); CHECK(d.size()==200,"d"); std::queue<int> q; q.push(1); std::priority_queue<int> pq; pq.push(3); pq.push(5); CHECK(pq.top()==5,"pq"); }
extern "C" void t_sets() { std::multimap<std::string,int> m; m.emplace("a",1); m.emplace("a",2); CHECK(m.count("a")==2,"mm"); std::multiset<float> s{1,1,2}; CHECK(s.count(1)==2,"ms"); std::unordered_set<std::string> us{"a","b"}; us.insert("c"); us.erase("a"); CHECK(us.size()==2,"us"); std::unordered_multimap<int,int> um; um.emplace(1,2); um.emplace(1,3); CHECK(um.count(1)==2,"um"); std::map<int,int> mm; mm[3]=1; auto r=mm.equal_range(3); CHECK(r.first!=r.second,"er"); mm.erase(r.first); std::unordered_map<std::string,int> rs; rs.reserve(100); rs.rehash(10); rs["q"]++; for (auto&k:rs) CHECK(k.second==1,"rs"); std::set<int> x{1,2,3}, y{2,3,4}; std::vector<int> o; std::set_intersection(x.begin(),x.end(),y.begin(),y.end(),std::back_inserter(o)); CHECK(o.size()==2,"si"); }
extern "C" void t_sto() { CHECK(std::stoi("12")==12,"i"); CHECK(std::stoul("12")==12,"ul"); CHECK(std::stof("1.5")==1.5f,"f"); CHECK(std::stod("1.25")==1.25,"d"); bool t=false; try { std::stoi("x"); } catch (const std::invalid_argument&) { t=true; } CHECK(t,"throw"); char*e; CHECK(strtol("7x",&e,10)==7 && *e=='x',"sl"); CHECK(strtod("2.5",nullptr)==2.5,"sd"); CHECK(strtoul("7",nullptr,10)==7,"su"); CHECK(atoi("5")==5,"at"); CHECK(std::strtof("2.5",&e)==2.5f,"sf"); }
extern "C" void t_tostr() { CHECK(std::to_string(12)=="12","i"); CHECK(std::to_string(-12L)=="-12","l"); CHECK(std::to_string(1.5)=="1.500000","d"); char b[40]; snprintf(b,40,"%d %s %.3f %zu",3,"x",1.5,(size_t)9); CHECK(std::string(b)=="3 x 1.500 9","sn"); }
extern "C" void t_ctype() { CHECK(isspace(' ')&&isdigit('3')&&!isalpha('3')&&tolower('A')=='a'&&toupper('a')=='A'&&isalnum('a')&&ispunct('.')&&isblank(' '),"ct"); }
extern "C" void t_str() { std::string s="hello world"; CHECK(s.find("wor")==6 && s.find_first_of(" ")==5 && s.find_last_of('o')==7 && s.find_first_not_of("he")==2 && s.rfind("o")==7 && s.find_last_not_of("d")==9,"find"); s.replace(0,5,"bye"); CHECK(s=="bye world","rep"); s.insert(3,"!"); s.erase(0,1); s.append(3,'x'); s.assign("abc"); s.resize(5,'y'); CHECK(s=="abcyy","rs"); CHECK(s.compare(0,3,"abc")==0,"cmp"); CHECK(strcmp(s.c_str(),"abcyy")==0 && strncmp("ab","ac",1)==0 && strlen("abc")==3 && strchr("abc",'b') && memcmp("a","a",1)==0 && memchr("abc",'c',3) && strstr("abc","bc") && strrchr("aba",'a'),"c"); std::reverse(s.begin(),s.end()); std::transform(s.begin(),s.end(),s.begin(),::toupper); CHECK(s=="YYCBA","tr"); s.pop_back(); s.shrink_to_fit(); s.clear(); CHECK(s.empty(),"e"); std::string a="x"; a += "y" + std::string("z"); a.swap(s); CHECK(s=="xyz" && s.substr(1)=="yz" && s.at(0)=='x' && s.front()=='x' && s.back()=='z',"sw"); }
extern "C" void t_except() { int c=0; try { std::vector<int> v; v.at(3); } catch (const std::out_of_range &e) { c=std::string(e.what()).empty()?2:1; } CHECK(c==1,"oor"); try { throw std::runtime_error("x"); } catch (const std::exception &e) { c+=e.what()[0]=='x'; } CHECK(c==2,"re"); try { try { throw 3; } catch (...) { throw; } } catch (int i) { c+=i; } CHECK(c==5,"rt"); try { std::string("a").substr(5); } catch (const std::out_of_range&) { ++c; } CHECK(c==6,"ss"); try { throw std::ios_base::failure("f"); } catch (const std::system_error &) { ++c; } catch (const std::runtime_error &) { c+=10; } catch(const std::exception&){c+=100;} CHECK(c==7,"iosf"); try { throw std::logic_error(std::string("l")); } catch (std::logic_error e) { ++c; } try { throw std::overflow_error("l"); } catch (std::range_error&) { c+=50; } catch (std::runtime_error&) { ++c; } CHECK(c==9,"oe"); }
extern "C" void t_tuple() { auto t=std::make_tuple(1,std::string("a"),2.0); CHECK(std::get<1>(t)=="a" && t==std::make_tuple(1,std::string("a"),2.0) && !(t<t),"t"); std::array<int,3> a{{1,2,3}}; CHECK(std::accumulate(a.begin(),a.end(),0)==6,"a"); std::bitset<70> b; b.set(3); CHECK(b.count()==1 && b.test(3),"b"); std::vector<bool> vb(70); vb[69]=true; vb.push_back(false); CHECK(vb[69] && std::count(vb.begin(),vb.end(),true)==1,"vb"); }
extern "C" void t_alg() { std::vector<int> v(50); std::iota(v.begin(),v.end(),0); std::reverse(v.begin(),v.end()); std::nth_element(v.begin(),v.begin()+5,v.end()); CHECK(v[5]==5,"nth"); std::partial_sort(v.begin(),v.begin()+5,v.end()); std::make_heap(v.begin(),v.end()); std::sort_heap(v.begin(),v.end()); CHECK(std::is_sorted(v.begin(),v.end()),"h"); CHECK(std::binary_search(v.begin(),v.end(),7) && *std::lower_bound(v.begin(),v.end(),7)==7 && *std::upper_bound(v.begin(),v.end(),7)==8,"bs"); v.erase(std::remove_if(v.begin(),v.end(),[](int x){return x%2;}),v.end()); CHECK(v.size()==25,"rm"); std::rotate(v.begin(),v.begin()+1,v.end()); CHECK(*std::max_element(v.begin(),v.end())==48 && *std::min_element(v.begin(),v.end())==0,"mm"); v.insert(v.begin(),{1,2}); std::unique(v.begin(),v.end()); std::fill_n(v.begin(),3,1); std::partial_sum(v.begin(),v.end(),v.begin()); CHECK(std::any_of(v.begin(),v.end(),[](int x){return x==1;}) && std::inner_product(v.begin(),v.begin()+1,v.begin(),0)==1,"ip"); std::swap_ranges(v.begin(),v.begin()+1,v.begin()+1); std::random_device rd; (void)rd; std::minstd_rand r(1); v.resize(3); std::shuffle(v.begin(),v.end(),r); }
extern "C" void t_streams() { std::ostringstream o; o<<std::setw(5)<<std::setfill('0')<<7<<std::left<<std::boolalpha<<true<<std::hex<<255<<std::dec<<std::fixed<<std::setprecision(2)<<1.5<<std::showpos<<3<<std::noshowpos<<'c'<<"s"<<std::string("t")<<1u<<2L<<3ul<<4ll<<5ull<<(short)6<<1.5f<<std::scientific<<1.5<<std::defaultfloat<<0.5; CHECK(o.str()=="00007trueff1.50+3cst1234561.501.50e+000.5",o.str().c_str()); std::stringstream ss("1 2.5 x\nline two\n"); int i; double d; char c; ss>>i>>d>>c; CHECK(i==1&&d==2.5&&c=='x',"in"); ss.ignore(100,'\n'); std::string l; std::getline(ss,l); CHECK(l=="line two","gl"); CHECK(!std::getline(ss,l) && ss.eof(),"eof"); ss.clear(); ss.str("a b c"); std::vector<std::string> v((std::istream_iterator<std::string>(ss)),std::istream_iterator<std::string>()); CHECK(v.size()==3,"ii"); std::ostringstream q; std::copy(v.begin(),v.end(),std::ostream_iterator<std::string>(q,",")); CHECK(q.str()=="a,b,c,","oi"); std::istringstream is("xyz"); CHECK(is.get()=='x' && is.peek()=='y',"gp"); is.unget(); CHECK(is.tellg()==0,"tg"); is.seekg(1); char b[3]; is.read(b,2); CHECK(is.gcount()==2 && b[0]=='y',"rd"); std::string all((std::istreambuf_iterator<char>(is)),std::istreambuf_iterator<char>()); CHECK(all.empty(),"all"); o.str(""); o.write("ab",2); o.put('c'); o<<std::flush<<std::ends; CHECK(o.str().size()==4,"w"); CHECK(o.good()&&!o.fail()&&!o.bad(),"st"); std::istringstream e("12abc"); int k; e>>k; CHECK(k==12 && !e.eof(),"12"); std::istringstream w("  q"); w>>std::ws; CHECK(w.get()=='q',"ws"); std::istringstream ns(" q"); ns>>std::noskipws>>c; CHECK(c==' ',"ns"); ns.exceptions(std::ios::failbit); bool th=false; ns>>c; try { int z; ns>>z; } catch (const std::ios_base::failure&) { th=true; } CHECK(th,"ex"); CHECK(ns.rdstate()!=std::ios::goodbit,"rs"); }
extern "C" void t_bases() { std::istringstream s("ff 0x1F 010 0x1f 12 010 09 0x"); int a,b,c,d,e,f,g; s>>std::hex>>a>>b>>std::setbase(0)>>c>>d>>e>>std::dec>>f; CHECK(a==255&&b==31&&c==8&&d==31&&e==12&&f==10,"bases"); s>>std::setbase(0)>>g; CHECK(g==0&&s.get()=='9',"octal stops at 9"); s>>g; CHECK(s.fail(),"0x alone"); std::istringstream o("777 8"); o>>std::oct>>a; CHECK(a==511,"oct"); o>>a; CHECK(o.fail(),"no octal digit"); std::ostringstream w; w<<std::setiosflags(std::ios::showpos)<<1<<std::resetiosflags(std::ios::showpos)<<2<<std::setbase(16)<<30; CHECK(w.str()=="+121e",w.str().c_str()); std::istringstream big("ffffffff 80000000"); unsigned u; int i; big>>std::hex>>u>>i; CHECK(u==0xffffffffu&&big.fail()&&i==2147483647,"overflow"); }
extern "C" void t_file() { { std::ofstream f("a.txt"); f<<"x\ny\n"; CHECK((bool)f,"o"); } std::ifstream f; f.open("a.txt"); std::stringstream s; s<<f.rdbuf(); CHECK(s.str()=="x\ny\n","rdbuf"); f.close(); f.clear(); std::fstream g("a.txt",std::ios::in|std::ios::out|std::ios::app); CHECK(g.is_open(),"fs"); std::ifstream n("missing"); CHECK(!n && !n.good(),"mi"); std::ofstream h("b.txt",std::ios_base::out|std::ios_base::trunc|std::ios::binary); h<<1; h.close(); CHECK(!h.fail(),"h"); std::ifstream z("b.txt",std::ios::ate|std::ios::binary); CHECK(z.tellg()==1,"ate"); }
extern "C" void t_math() { double x=sym_f64("x"); ASSUME(x>0.5&&x<1.5); CHECK(std::pow(x,2)==x*x,"pow"); CHECK(std::abs(x)==x&&std::fabs(-x)==x,"abs"); CHECK(std::fmax(x,0.0)==x&&std::fmin(x,2.0)==x,"mm"); CHECK(std::isfinite(x)&&!std::isnan(x)&&!std::isinf(x)&&!std::signbit(x),"cls"); CHECK(std::lround(2.5)==3&&std::llround(2.4)==2&&std::floor(2.5)==2&&std::ceil(2.5)==3&&std::trunc(2.5)==2&&std::round(2.5)==3,"r"); CHECK(std::log1p(0.0)==0&&std::expm1(0.0)==0&&std::cbrt(8.0)==2&&std::hypot(3.,4.)==5,"l"); CHECK(std::fmod(5.,3.)==2,"fm"); double ip; CHECK(std::modf(2.5,&ip)==0.5&&ip==2,"mf"); CHECK(std::max(x,0.1)==x,"m"); CHECK(std::nextafter(1.0,2.0)>1,"na"); CHECK(std::ldexp(1.0,3)==8,"ld"); CHECK(log2(8)==3&&exp2(3)==8&&std::log(1.0)==0&&std::exp(0.0)==1,"lg"); int e; CHECK(std::frexp(8.0,&e)==0.5&&e==4,"fr"); CHECK(std::sqrt(x)*0==0,"sq"); CHECK(std::lround(x)>=0,"lr"); }
