mod sup;
use sup::*;

#[tokio::main]
async fn main() {
    let hub = Hub::default();
    let mut sts = vec![];
    let mut rs = vec![];
    for id in 1..=3 {
        let st = Store::default();
        rs.push(node(&hub, id, quiet(), &st).await);
        sts.push(st);
    }
    rs[0].initialize([1u64, 2, 3].into_iter().map(|n| (n, BasicNode::new(format!("n{n}")))).collect::<std::collections::BTreeMap<_, _>>()).await.unwrap();
    rs[0].trigger().elect().await.unwrap();
    until("leader", || rs[0].metrics().borrow().current_leader == Some(1)).await;
    let r = rs[0].client_write(Req(5)).await.unwrap();
    println!("{:?}", r.log_id);
    until("applied", || sts[2].d(|d| d.sm.data.len()) == 0).await;
    let m = rs[1].append_entries(append(Vote::new_committed(1, 1), None, vec![], None)).await.unwrap();
    println!("{m:?}");
}
